"""
The explorer. A property module enumerates, deterministically and completely, a bounded space of cases (`cases(tier)`)
and decides each one (`run(case, rec)`) by executing the real code and comparing it with a reference model. A case is a
Python literal, so it can be written to a file and run again. The space is split over forked workers by index; nothing
is sampled, and nothing is cut short: a run which doesn't finish its space says so by failing.
"""
import ast
import collections
import importlib
import json
import os
import pickle
import resource
import signal
import struct
import subprocess
import sys
import time
import traceback
import mmap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
CASE_CPU_S = 100
MEM = 3 << 30


class Violation(Exception):
    """The property does not hold for the case being run. `key` identifies a known finding."""
    def __init__(self, what, key=None):
        super().__init__(what)
        self.key = key


class CaseTimeout(BaseException):
    pass


class HarnessError(BaseException):
    """The machinery itself is at fault; never reported as a violation."""


class Rec:
    """What a run covered."""
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.findings = {}

    def state(self, *parts):
        self.states.add(hash(parts))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *parts):
        if len(self.outcomes) < 2000000:
            self.outcomes.add(hash(parts))


def require(cond, what, *args):
    if not cond:
        raise Violation(what % args if args else what)


def same(got, want, what, *args):
    """Equality which distinguishes types, but not the order of the items of dicts and sets."""
    if canon(got) != canon(want):
        raise Violation("%s: got %s, expected %s" % (what % args if args else what, short(got), short(want)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "... (%d characters)" % len(s)


def canon(x):
    """A comparable form which distinguishes types (1, 1.0, True, NumPy scalars), but not the order in dicts and sets."""
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((canon(k), canon(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((canon(v) for v in x), key=repr)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v) for v in x))
    return (type(x).__name__, repr(x))


def module(pid):
    return importlib.import_module("mc.props.%s" % pid.lower())


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        for e in json.load(f)["findings"]:
            if e.get("status") == "known" and e["property"] == pid:
                out[e["key"]] = e["what"]
    return out


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, rec):
    """Returns None, or (what, key) when the property does not hold for the case."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CASE_CPU_S", CASE_CPU_S))
    try:
        mod.run(case, rec)
        return None
    except Violation as e:
        return str(e), e.key
    except CaseTimeout:
        return "the run did not terminate within %d s of CPU time" % getattr(mod, "CASE_CPU_S", CASE_CPU_S), None
    except HarnessError:
        raise
    except MemoryError:
        return "the run needed more than %d GB of memory" % (MEM >> 30), None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if not any(not f.filename.startswith(os.path.join(HERE, "mc")) for f in tb):
            # raised by the machinery, with no frame of the code under test: an unexpected shape of a result
            pass
        where = ["%s:%d" % (os.path.relpath(f.filename, "/"), f.lineno) for f in tb[-4:]]
        return "unexpected %s: %s (at %s)" % (type(e).__name__, e, " < ".join(reversed(where))), None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(mod, tier, w, n, shm, out_path, known):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    rec, samples, i, ran, bad = Rec(), [], -1, 0, None
    findings = collections.OrderedDict()
    for i, case in enumerate(mod.cases(tier)):
        if i % n != w:
            continue
        struct.pack_into("q", shm, 8 * w, i)
        got = run_case(mod, case, rec)
        ran += 1
        if len(samples) < 2:
            samples.append((i, repr(case)))
        if got is not None:
            what, key = got
            if key is not None and key in known:
                findings.setdefault(key, (i, repr(case), what))
                continue
            bad = (i, repr(case), what)
            break
    struct.pack_into("q", shm, 8 * w, -1)
    with open(out_path, "wb") as f:
        pickle.dump({"ran": ran, "total": i + 1, "states": rec.states, "transitions": rec.transitions,
                     "traces": rec.traces, "outcomes": rec.outcomes, "samples": samples, "bad": bad,
                     "findings": dict(findings)}, f, protocol=4)


def check(pid, tier):
    t0 = time.time()
    known = known_findings(pid)
    scratch = os.environ["MC_SCRATCH"]
    try:
        mod = module(pid)
    except HarnessError:
        raise
    except Exception as e:
        # the code under test cannot even be loaded
        tb = traceback.format_exc()
        if "mc/target.py" in tb or "/netomaton/" in tb:
            return report_violation(pid, tier, t0, -1, "None", "netomaton cannot be imported: %r" % (e,), None)
        raise
    n = WORKERS
    shm = mmap.mmap(-1, 8 * n)
    for w in range(n):
        struct.pack_into("q", shm, 8 * w, -2)
    sys.stdout.flush()
    pids = {}
    for w in range(n):
        p = os.fork()
        if p == 0:
            rc = 3
            try:
                _worker(mod, tier, w, n, shm, os.path.join(scratch, "out.%d" % w), known)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        pids[p] = w
    results, dead = {}, {}
    while pids:
        p, status = os.wait()
        w = pids.pop(p)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
            with open(os.path.join(scratch, "out.%d" % w), "rb") as f:
                results[w] = pickle.load(f)
            if results[w]["bad"]:
                # the others only matter where they may hold an earlier counterexample; don't wait for all of them
                for q in list(pids):
                    at = struct.unpack_from("q", shm, 8 * pids[q])[0]
                    if at > results[w]["bad"][0]:
                        try:
                            os.kill(q, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
        elif os.WIFSIGNALED(status):
            dead[w] = (os.WTERMSIG(status), struct.unpack_from("q", shm, 8 * w)[0])
        else:
            dead[w] = (None, struct.unpack_from("q", shm, 8 * w)[0])
    bads = [r["bad"] + (w,) for w, r in results.items() if r["bad"]]
    if not bads:
        for w, (sig, at) in dead.items():
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                case = next(c for i, c in enumerate(mod.cases(tier)) if i == at)
                bads.append((at, repr(case), "the process was ended by signal %d" % sig, w))
        if not bads and dead:
            print("harness error: worker(s) %s failed" % sorted(dead), file=sys.stderr)
            return 2
    if bads:
        i, case, what, w = min(bads)
        alone = confirm(pid, case)
        note = None
        if not alone:
            note = {"needs_history": True, "tier": tier, "worker": w, "workers": n, "index": i}
        return report_violation(pid, tier, t0, i, case, what, note, results)
    total = {r["total"] for r in results.values()}
    if len(total) != 1:
        print("harness error: the workers disagree on the number of cases: %s" % total, file=sys.stderr)
        return 2
    found = {}
    for r in results.values():
        for k, v in r["findings"].items():
            if k not in found or v[0] < found[k][0]:
                found[k] = v
    for k in sorted(found):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    write_evidence(pid, mod, tier, t0, results, 0, found)
    cov = summarize(results)
    print("ok property=%s tier=%s cases=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs" % (
        pid, tier, cov["evaluations"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        cov["distinct_outcomes"], time.time() - t0))
    return 0


def summarize(results):
    states, outcomes = set(), set()
    for r in results.values():
        states |= r["states"]
        outcomes |= r["outcomes"]
    return {
        "evaluations": sum(r["ran"] for r in results.values()),
        "states": len(states),
        "transitions": sum(r["transitions"] for r in results.values()),
        "traces_validated_against_impl": sum(r["traces"] for r in results.values()),
        "distinct_outcomes": len(outcomes),
    }


def write_evidence(pid, mod, tier, t0, results, violations, findings=None, samples=None):
    cov = summarize(results)
    if samples is None:
        samples = []
        for w in sorted(results):
            for i, c in results[w]["samples"][:1]:
                samples.append({"index": i, "case": c[:1500]})
    cov["samples"] = samples
    cov["rule"] = " ".join((mod.__doc__ or "").split())[:3000] if mod else ""
    cov["exhaustive"] = not violations
    cov["distinct_nontrivial"] = cov["distinct_outcomes"]
    if findings:
        cov["known_findings_seen"] = {k: v[1][:500] for k, v in findings.items()}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": violations,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", []))}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def report_violation(pid, tier, t0, i, case, what, note, results=None):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rel = "evidence/%s.replay.json" % pid
    with open(os.path.join(HERE, rel), "w") as f:
        json.dump({"property": pid, "index": i, "case": case, "what": what, "history": note,
                   "run": "bash /verif/check.sh replay /verif/" + rel}, f, indent=1)
    try:
        write_evidence(pid, module(pid) if i >= 0 else None, tier, t0, results or {}, 1, None,
                       [{"index": i, "case": case[:1500], "what": what[:1500]}])
    except Exception:
        traceback.print_exc()
    print("case %d: %s" % (i, case[:2000]))
    print("        " + what[:3000])
    print("VIOLATION property=%s replay=%s" % (pid, rel))
    return 1


def confirm(pid, case):
    """Whether the case fails by itself, in a fresh process."""
    path = os.path.join(os.environ["MC_SCRATCH"], "confirm.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case}, f)
    try:
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "mc", "replay", path], stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=300)
    except subprocess.TimeoutExpired:
        return True
    return r.returncode != 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = module(d["property"])
    h = d.get("history")
    if h:
        # it takes the cases which the worker ran before it
        got = None
        for i, case in enumerate(mod.cases(h["tier"])):
            if i % h["workers"] == h["worker"]:
                got = run_case(mod, case, Rec())
                if i >= h["index"]:
                    break
    else:
        got = run_case(mod, ast.literal_eval(d["case"]), Rec())
    if got is None:
        print("the case passes")
        return 0
    print(got[0])
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1


def main(argv):
    if not argv:
        print("usage: check.sh PROPERTY [quick|thorough] | replay FILE", file=sys.stderr)
        return 2
    if argv[0] == "replay":
        return replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[0], tier)
