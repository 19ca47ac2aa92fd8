"""Shared machinery of the checks: TLC runs, traces, verdicts, evidence."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


# errors of evaluating the specification on the recorded values (and not of running TLC)
UNDEFINED = re.compile(r"Attempted to|not a number|In evaluation|CHOOSE|nonexistent field|ClassCastException|Error: Evaluating")
ODD = "trace: the specification is defined on what was observed"


class Machinery(Exception):
    """The check itself failed; says nothing about the property."""


class Hang(BaseException):
    """The code under test did not come back."""


# --------------------------------------------------------------------------
# numbers and calls

def num(x):
    """Exact rational of a number, as Num.tla reads it."""
    try:
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int) and abs(x) < 2**31:
            return str(x)
        f = Fraction(float(x)) if not isinstance(x, (int, Fraction)) else Fraction(x)
    except Exception:
        return "nan"
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def nums(xs):
    try:
        return [num(x) for x in xs]
    except Exception:
        return ["nan"]


HANGS = [0]


class alarm:
    """Raises Hang in the main thread if the block takes too long."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(*a):
            HANGS[0] += 1
            raise Hang()
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def attempt(f, *a, **k):
    """(True, value) or (False, exception) of a call into the code under test."""
    try:
        return True, f(*a, **k)
    except Exception as e:  # noqa
        return False, e


def quiet():
    import logging, warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


# --------------------------------------------------------------------------
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.models, self.failures, self.known = [], [], []
        self.cov = {}
        self.events = 0
        self.traces = 0
        self.trace_states = 0
        self.samples = []
        self.notes = []
        self.assume = []
        self.pool = ThreadPoolExecutor(8)
        self.futures = []
        self.findings = load_findings(prop)
        self.scope = None     # regular expression of the clauses that belong to the property

    def each(self, f, items):
        """[f(x) for x in items], as far as the time allows; a code under test that has become very
        slow or hangs must not keep the verdict from being given."""
        out = []
        limit = float(os.environ.get("VP_BUDGET", 400 if self.quick else 4000))
        for x in (range(items) if isinstance(items, int) else items):
            if time.time() - self.t0 > limit or HANGS[0] >= 3:
                self.notes.append("stopped generating after %d of the cases (%d hangs)" % (len(out), HANGS[0]))
                break
            out.append(f(x))
        return out

    # -- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, *opts, rational=False, env=None, workers=1, timeout=800, heap="3g"):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cp = (BUILD + ":" if rational else "") + JARS
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:ParallelGCThreads=2",
               "-Djava.io.tmpdir=" + meta, "-cp", cp, "tlc2.TLC", "-config", os.path.join(SPEC, cfg),
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
        cmd += list(opts) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=e, timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on %s %s" % (module, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    def model(self, module, cfg=None, workers=4, **kw):
        """Exhaustive model checking, in the background; an error is a machinery error because
        the model does not depend on the code."""
        if os.environ.get("VP_NOMODEL"):   # for trying many changed trees: the models depend on none
            return
        if cfg is None:
            cfg = module + ".cfg"
            th = module + "_thorough.cfg"
            if not self.quick and os.path.exists(os.path.join(SPEC, th)):
                cfg = th
        def run():
            rc, out = self.tlc(module, cfg, "-coverage", "1", workers=workers, **kw)
            m = re.search(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out[out.rfind("Model checking completed"):])
            if rc != 0 or "No error has been found" not in out or not m:
                raise Machinery("model %s %s:\n%s" % (module, cfg, out[-3000:]))
            d = re.search(r"depth of the complete state graph search is (\d+)", out)
            acts = {}
            for a, n in re.findall(r"^<(\w+) line [^>]*>: ([\d:]+)", out, re.M):
                acts[a] = n
            acts = {a: n for a, n in acts.items() if ":" in n}
            never = sorted(a for a, n in acts.items() if n.split(":")[-1] == "0" and a != "Init")
            self.models.append(dict(module=module, cfg=cfg, states=int(m.group(2).replace(",", "")),
                                    transitions=int(m.group(1).replace(",", "")),
                                    depth=int(d.group(1)) if d else 0, actions=acts, never_taken=never))
        self.futures.append(self.pool.submit(run))

    def generate(self, module, cfg, n, depth=200, keep=None):
        """Behaviours of the specification (as printed by its Emit operator), for replay: n random
        walks, of which (with the alternatives of their last steps) at most keep are returned."""
        rc, out = self.tlc(module, cfg, "-simulate", "num=%d" % n, "-depth", str(depth),
                           "-seed", str(self.rng.randrange(1, 10**9)))
        res, seen = [], set()
        for ln in out.splitlines():
            if ln.startswith('"@GEN '):
                s = json.loads(ln)[5:]
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        if not res:
            raise Machinery("no behaviours from %s:\n%s" % (module, out[-3000:]))
        keep = keep or 2 * n
        return self.rng.sample(res, keep) if len(res) > keep else res

    def validate(self, module, cases, chunk=None, cfg="Trace.cfg", timeout=800):
        """cases: list of event lists (each starting from the initial abstract state).
        Returns nothing; failing clauses are collected in self.failures."""
        cases = [c for c in cases if c]
        k = min(6 if chunk is None else chunk, max(1, len(cases)))
        parts = [cases[i::k] for i in range(k)]
        def run(i, part):
            path = os.path.join(self.work, "trace-%s-%d-%d.ndjson" % (module, i, id(part)))
            index = []
            with open(path, "w") as f:
                for c in part:
                    f.write('{"op":"reset"}\n')
                    index.append((c, -1))
                    for j, ev in enumerate(c):
                        f.write(json.dumps(ev) + "\n")
                        index.append((c, j))
            rc, out = self.tlc(module, cfg, rational=True, env={"TRACE": path}, timeout=timeout)
            end = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"@END ')]
            if (rc != 0 or len(end) != 1) and UNDEFINED.search(out):
                # an observation the specification has no value for is no behaviour of it
                if len(part) > 1:
                    h = len(part) // 2
                    a, b = run(i, part[:h]), run(i, part[h:])
                    n = len(a[0])
                    return (a[0] + b[0], a[1] + [dict(x, l=x["l"] + n) for x in b[1]], a[2] + b[2], len(part))
                j = int((re.findall(r"^/?\\?\s*l = (\d+)", out, re.M) or re.findall(r"l = (\d+)", out) or [1])[-1])
                return index, [dict(l=min(j, len(index)), clause=ODD)], [], 1
            if len(end) != 1 or end[0]["n"] != len(index) or rc != 0:
                raise Machinery("trace validation %s did not complete:\n%s" % (module, out[-3000:]))
            bad = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"@BAD ')]
            os.unlink(path)
            return index, bad, end[0]["cov"], len(part)
        for index, bad, cov, n in self.pool.map(lambda a: run(*a), list(enumerate(parts))):
            self.events += len(index)
            self.traces += n
            self.trace_states += len(index) + 1
            for c in cov:
                if self.scope and not re.search(self.scope, c):
                    continue
                self.cov[c] = self.cov.get(c, 0) + 1
            seen = set()
            for b in bad:
                case, j = index[b["l"] - 1]
                if (b["l"], b["clause"]) in seen:
                    continue
                seen.add((b["l"], b["clause"]))
                self.fail(module, b["clause"], case, j)
        for c in cases[:2]:
            if len(self.samples) < 3:
                self.samples.append(shorten(c))

    def fail(self, module, clause, case, j):
        if self.scope and clause != ODD and not re.search(self.scope, clause):
            return
        for f in self.findings:
            if clause == f["clause"] and all(str(case[j].get(k)) == str(v) for k, v in f.get("where", {}).items()):
                self.known.append((f, case, j))
                return
        self.failures.append(dict(module=module, clause=clause, event=j, case=case))

    # -- end -----------------------------------------------------------
    def finish(self):
        for f in self.futures:
            f.result()
        states = sum(m["states"] for m in self.models) + self.trace_states
        trans = sum(m["transitions"] for m in self.models) + self.events
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=states, transitions=trans,
                                traces_validated_against_impl=self.traces,
                                events_validated_against_impl=self.events,
                                models=self.models,
                                clauses_exercised=sorted(self.cov),
                                known_findings_observed=len(self.known),
                                samples=self.samples or ["(no trace)"], notes=self.notes),
                  assumptions=self.assume, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.failures))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for fid in sorted(set(f["id"] for f, _, _ in self.known)):
            f = [g for g, _, _ in self.known if g["id"] == fid][0]
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, fid, f["what"]))
        for e in self.models:
            print("model %s: %d distinct states, depth %d%s" % (e["cfg"], e["states"], e["depth"],
                  (", never taken: " + ",".join(e["never_taken"])) if e["never_taken"] else ""))
        print("%d traces, %d events validated against the implementation; %d clauses exercised; %.1f s"
              % (self.traces, self.events, len(self.cov), time.time() - self.t0))
        if self.failures:
            path = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump(self.failures[:20], f, indent=1, default=str)
            names = {}
            for x in self.failures:
                names[x["clause"]] = names.get(x["clause"], 0) + 1
            for n, k in sorted(names.items()):
                print("failed clause (%d events): %s" % (k, n))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0


def shorten(case, n=6):
    s = json.dumps(case[:n], default=str)
    return s if len(s) < 3000 else s[:3000] + "..."


def load_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == prop]
