"""Shared machinery of the checks: running TLC, recording traces of the real
code, judging them by a TLA+ trace specification, reporting."""

import json
import multiprocessing
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import threading
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 1))

_scratch = None


def scratch():
    """A scratch folder of this run, removed at the end of it."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


class MachineryError(Exception):
    """The check itself could not do its work (no verdict)."""
    result = None       # the TLCResult until then


class TLCResult:
    def __init__(self):
        self.lines = []      # JSON values printed by the specification
        self.generated = self.distinct = 0
        self.text = ""
        self.violated = []   # names of violated invariants / properties


def run_tlc(module, cfg, env=None, workers=1, heap="3g", timeout=800, simulate=None,
            depth=None, seed=None, coverage=False):
    """Run TLC on spec/<module>.tla with configuration text ``cfg``.

    JSON values printed by the specification are returned in .lines. A TLC
    error other than a violated invariant is a machinery error.
    """
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d,
           "-cp", CP, "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"]
    if simulate is not None:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += ["-seed", str(seed or 1)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    res = TLCResult()
    out = os.path.join(d, "out.txt")
    with open(out, "w") as fo:
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timeout on %s" % module)
    rest = []
    with open(out, errors="replace") as fi:
        for line in fi:
            if line.startswith('"{') or line.startswith('"['):
                try:
                    res.lines.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            rest.append(line)
            if line.startswith("Error: Invariant ") or line.startswith("Error: Action property "):
                res.violated.append(line.split()[2].rstrip("."))
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                res.generated, res.distinct = int(m[1]), int(m[2])
            elif "states checked" in line or "The number of states generated:" in line:
                w = [x for x in line.replace(",", "").split() if x.isdigit()]
                if w:
                    res.generated = res.distinct = int(w[0])
    res.text = "".join(rest)
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode not in (0, 12, 13):
        err = MachineryError("TLC failed (%d) on %s:\n%s" % (p.returncode, module, res.text[res.text.find("Error:"):][:3000] if "Error:" in res.text else res.text[-3000:]))
        err.result = res
        raise err
    if p.returncode in (12, 13) and not res.violated:
        res.violated.append("?")
    return res


# ------------------------------------------------------- running the real code

class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def guarded(fn, *args, seconds=10):
    """Call the real code; returns (value, None) or (None, "ExceptionName: ...").

    Never raises for something the real code does: an exception, an endless
    loop or unbounded memory become an error text, to be judged."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*args), None
    except CaseTimeout:
        return None, "Timeout: no result within %ds" % seconds
    except MemoryError:
        return None, "MemoryError"
    except RecursionError:
        return None, "RecursionError"
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _pool_init():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(4000)
    sys.stdout = open(os.devnull, "w")      # messages of the code about unknown tokens
    threading.excepthook = _thread_error


thread_errors = []      # exceptions in background threads


def _thread_error(args):
    """Keep the exceptions raised in a background thread; silence a known one of parce itself
    (Transformer.invalidate_node does not expect a context without transform result)."""
    thread_errors.append("%s: %s" % (args.exc_type.__name__, args.exc_value))
    tb = traceback.extract_tb(args.exc_traceback)
    if not (args.exc_type is KeyError and tb and tb[-1].name == "invalidate_node"):
        traceback.print_exception(args.exc_type, args.exc_value, args.exc_traceback)


def raised_by_code(exc):
    """Whether the exception was raised by the code under test (or by a
    library it has called), and not by the harness."""
    for f in reversed(traceback.extract_tb(exc.__traceback__)):
        name = os.path.realpath(f.filename)
        if name.startswith(os.path.realpath(VERIF) + os.sep):
            return False
        if os.sep + "quickly" + os.sep in name:
            return True
    return False


class CodeError(Exception):
    """The code under test has raised an exception where it should not."""


def _chunk_call(a):
    fn, chunk = a
    try:
        return fn(chunk), None
    except BaseException as e:
        return None, (raised_by_code(e), traceback.format_exc())


def pmap_chunks(fn, items, nchunks=None):
    """Apply fn (list -> list) to chunks of items in worker processes; concatenates."""
    items = list(items)
    if not items:
        return []
    n = nchunks or CORES * 4
    size = max(1, (len(items) + n - 1) // n)
    chunks = [items[i:i + size] for i in range(0, len(items), size)]
    res = []
    with multiprocessing.get_context("fork").Pool(CORES, _pool_init) as pool:
        for r, err in pool.imap(_chunk_call, [(fn, c) for c in chunks]):
            if err:
                raise (CodeError if err[0] else MachineryError)("worker failed:\n" + err[1])
            res.extend(r)
    return res


# ------------------------------------------------------- judging traces

def _judge_one(a):
    module, cfg, path, env, heap, timeout = a
    e = dict(env or {})
    e["TRACE"] = path
    try:
        r = run_tlc(module, cfg, env=e, workers=1, heap=heap, timeout=timeout)
        return r, None
    except MachineryError as ex:
        # a recorded value the operators of the specification are not defined
        # for: the behaviour of the line is outside the specification
        r = ex.result
        if r and "Attempted to" in r.text and not re.search("OutOfMemory|StackOverflow", r.text):
            at = re.findall(r"^(?:/\\ )?l = (\d+)$", r.text, re.M)
            if at:
                r.lines.append({"line": int(at[-1]), "bad": ["outside-the-specification"], "info": str(ex)[:600]})
                r.distinct = None
                return r, None
        return None, str(ex)


#: errors of parts that could not be judged
UNFINISHED = []


def judge(module, lines, cfg=None, env=None, parts=CORES, heap="2500m", timeout=None, groups=None):
    """Let the TLA+ trace specification ``module`` judge recorded lines.

    ``lines`` is a list of JSON values. With ``groups`` (list of lists) each
    group is a history that must stay together. Returns (verdicts, stats):
    verdicts is a list of (line_value, [failing clause, ...]); every line must
    have been consumed by the specification.
    """
    if groups is None:
        groups = [[x] for x in lines]
    groups = [g for g in groups if g]
    total = sum(len(g) for g in groups)
    if not total:
        return [], dict(states=0, lines=0)
    parts = max(1, min(parts, len(groups)))
    # distribute by size
    buckets = [[] for _ in range(parts)]
    sizes = [0] * parts
    for g in groups:
        i = sizes.index(min(sizes))
        buckets[i].extend(g)
        sizes[i] += sum(len(json.dumps(x)) for x in g)
    timeout = timeout or (560 if (os.environ.get("VERIF_TIER") or "quick") == "quick" else 3000)
    cfg = cfg or "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n"
    jobs = []
    for i, b in enumerate(buckets):
        if not b:
            continue
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=scratch())
        with os.fdopen(fd, "w") as f:
            for x in b:
                f.write(json.dumps(x) + "\n")
        jobs.append((b, (module, cfg, path, env, heap, timeout)))
    from concurrent.futures import ThreadPoolExecutor
    verdicts = []
    states = 0
    with ThreadPoolExecutor(len(jobs)) as ex:
        for (b, job), (r, err) in zip(jobs, ex.map(_judge_one, [j for _, j in jobs])):
            os.unlink(job[2])
            if err:
                # what the other parts found is still reported
                UNFINISHED.append(err)
                continue
            if r.violated:
                raise MachineryError("trace specification %s stopped: %s\n%s" % (module, r.violated, r.text[-3000:]))
            if r.distinct is None:
                r.distinct = 0
            elif r.distinct < len(b):
                raise MachineryError("trace specification %s consumed %d of %d lines\n%s" % (
                    module, r.distinct, len(b), r.text[-3000:]))
            states += r.distinct
            for v in r.lines:
                if isinstance(v, dict) and "bad" in v:
                    verdicts.append((b[v["line"] - 1], list(v["bad"]), v.get("info")))
    if UNFINISHED and not verdicts:
        raise MachineryError(UNFINISHED[0])
    return verdicts, dict(states=states, lines=total)


# ------------------------------------------------------- reporting

class Report:
    """Collects what a check covered and the violations it found."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []     # (key, clause, case)
        self.exhaustive = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add_tlc(self, name, r):
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("models", {})[name] = dict(distinct=r.distinct, generated=r.generated, emitted=len(r.lines))
        if r.violated:
            # the specification itself breaks one of its invariants: no
            # statement about the code can be derived from it.
            raise MachineryError("model %s violates %s\n%s" % (name, r.violated, r.text[-4000:]))

    def add_judge(self, name, stats, traces=None):
        self.states += stats["states"]
        self.transitions += stats["states"]
        self.traces += traces if traces is not None else stats["lines"]
        self.extra.setdefault("trace_validation", {})[name] = dict(stats, traces=traces if traces is not None else stats["lines"])

    def sample(self, x, n=6):
        if len(self.samples) < n:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 1500 else s[:1500])

    def violation(self, key, clause, case):
        self.violations.append((key, clause, case))

    def violations_from(self, verdicts, keyfn):
        for line, bad, info in verdicts:
            for c in bad:
                self.violation(keyfn(line, c), c, dict(line=line, clause=c, info=info))

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, msg), flush=True)

    def finish(self):
        known = load_known(self.prop)
        new = []
        seen_known = set()
        for key, clause, case in self.violations:
            k = next((x for x in known if x.get("key") == key), None)
            if k is not None:
                seen_known.add(key)
            else:
                new.append((key, clause, case))
        for k in known:
            # a listed finding is reported on every run, met or not
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, wall_s=round(time.time() - self.t0, 2),
                  assumptions=self.assumptions, violations=len(new))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        rdir = os.path.join(EVID, "replay")
        if new:
            os.makedirs(rdir, exist_ok=True)
            shown = {}
            for key, clause, case in new:
                if shown.setdefault(clause, 0) >= 3 or len(shown) > 12:
                    continue
                shown[clause] += 1
                path = os.path.join(rdir, "%s-%s-%d.json" % (self.prop, "".join(c if c.isalnum() else "_" for c in clause)[:40], shown[clause]))
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, clause=clause, key=key, case=case), f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("   clause: %s   %s" % (clause, json.dumps(case, default=str)[:1200]))
            print("%s: %d violation(s), tier %s, %.1fs" % (self.prop, len(new), self.tier, time.time() - self.t0))
            return 1
        if UNFINISHED:
            raise MachineryError(UNFINISHED[0])
        print("%s: held on everything explored (%d states, %d transitions, %d traces), tier %s, %.1fs" % (
            self.prop, self.states, self.transitions, self.traces, self.tier, time.time() - self.t0))
        return 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    x = json.loads(line)
                    if x.get("property") == prop and x.get("status") == "known":
                        res.append(x)
    return res
