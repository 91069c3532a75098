"""Generated-input search: every check is a set of Tests, each a Hypothesis
strategy for a JSON-serialisable case plus an oracle run on the case."""
import argparse
import glob
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

warnings.simplefilter("ignore")
# the messages are not needed, whatever the level of a logger is
logging.disable(logging.CRITICAL)


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """Something is wrong with the check, not with the code under test."""


class CaseTimeout(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Rec:
    """What a case tells the harness about itself."""

    def __init__(self, scratch):
        self.scratch_root = scratch
        self.reset()
        self.labels = {}
        self.known = {}

    def reset(self):
        self._nontrivial = False
        self._outcome = None

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def known_finding(self, name):
        self.known[name] = self.known.get(name, 0) + 1

    def outcome(self, ok):
        self._outcome = bool(ok)

    def tmpdir(self):
        return tempfile.mkdtemp(dir=self.scratch_root)


class Test:
    def __init__(
        self,
        name,
        strategy,
        check,
        quick=200,
        thorough=None,
        rule="",
        shards=1,
        timeout=120,
        verdict=None,
        hang=False,
    ):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.rule = rule
        self.shards = shards
        self.timeout = timeout
        self.verdict = verdict
        # whether a case that exceeds the timeout is a failure
        self.hang = hang


def canon(case):
    return json.loads(json.dumps(case, default=_np_default))


def _np_default(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def case_hash(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True).encode()
    ).hexdigest()[:16]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(test, case, rec, timeout=None):
    """Returns None or a failure message.  Restores the process between cases."""
    import numpy as np

    rec.reset()
    np.random.seed(0)
    cwd = os.getcwd()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout or test.timeout)
    try:
        test.check(case, rec)
    except (HarnessError, MemoryError):
        raise
    except Violation as e:
        return "%s" % e
    except CaseTimeout:
        if test.hang:
            return "not finished within %s s" % (timeout or test.timeout)
        raise
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        return "%s: %s | %s" % (
            type(e).__name__,
            e,
            " ".join(x.strip() for x in tb[-7:]),
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        try:
            plt = sys.modules.get("matplotlib.pyplot")
            if plt is not None:
                plt.close("all")
        except Exception:
            pass
    return None


def worker(test, n, seed, deadline, shrink_s, out, scratch):
    """Runs in a forked process; writes its result to the file out."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    rec = Rec(scratch)
    res = {
        "evals": 0,
        "nontrivial": [],
        "samples": [],
        "failure": None,
        "timeouts": 0,
        "outcomes": [],
    }
    nontrivial = set()
    state = {"t_fail": None, "fails": [], "best": None}

    class Found(Exception):
        pass

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        deadline=None,
        database=None,
        derandomize=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        verbosity=hypothesis.Verbosity.quiet,
    )
    @hypothesis.given(test.strategy())
    def prop(case):
        case = canon(case)
        now = time.time()
        h = case_hash(case)
        if state["t_fail"] is None:
            if now > deadline or res["timeouts"] >= 3:
                res["cut"] = True
                return
        elif now - state["t_fail"] > shrink_s:
            # stop shrinking: only what is known to fail still fails
            if h in state["fails"]:
                raise Found(state["msgs"][h])
            return
        try:
            msg = run_case(test, case, rec)
        except CaseTimeout:
            res["timeouts"] += 1
            return
        if state["t_fail"] is None:
            res["evals"] += 1
            if rec._nontrivial:
                if h not in nontrivial and (
                    len(res["samples"]) < 2 or len(nontrivial) in (20, 200)
                ):
                    res["samples"].append(case)
                nontrivial.add(h)
            if rec._outcome is not None:
                res["outcomes"].append([case, rec._outcome])
        if msg is not None:
            if state["t_fail"] is None:
                state["t_fail"] = now
                state["msgs"] = {}
            state["fails"].append(h)
            state["msgs"][h] = msg
            state["best"] = (case, msg)
            raise Found(msg)

    try:
        prop()
    except HarnessError:
        raise
    except BaseException as e:
        if state["best"] is None:
            res["error"] = "".join(
                traceback.format_exception(type(e), e, e.__traceback__)
            )[-4000:]
    if state["best"] is not None:
        case, msg = state["best"]
        res["failure"] = {"case": case, "msg": msg}
    res["nontrivial"] = sorted(nontrivial)
    res["labels"] = rec.labels
    res["known"] = rec.known
    with open(out, "w") as f:
        json.dump(res, f)


def _entry(args):
    err = args[-2] + ".err"
    silence(err)
    try:
        worker(*args)
        os._exit(0)
    except BaseException:
        with open(err + "or", "w") as f:
            traceback.print_exc(file=f)
        os._exit(3)


def silence(path):
    """What the code under test prints goes to a file."""
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


class quiet:
    """Silences a part of the main process."""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = os.dup(1), os.dup(2)
        silence(os.devnull)

    def __exit__(self, *a):
        sys.stdout.flush()
        sys.stderr.flush()
        for fd, old in zip((1, 2), self.saved):
            os.dup2(old, fd)
            os.close(old)


def known_findings(here, prop):
    out = []
    path = os.path.join(here, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line[len("finding: property=%s " % prop):]
                ident, what = rest.split(" ", 1)
                out.append((ident, what))
    return out


def write_replay(here, prop, test, failure):
    d = os.path.join(here, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(
        d, "%s-%s-%s.json" % (prop, test, case_hash(failure["case"]))
    )
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "test": test,
                "msg": failure["msg"],
                "case": failure["case"],
                "how": "python3 run.py %s --replay %s" % (prop, path),
            },
            f,
            indent=1,
        )
    return path


def truncate(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + "...(truncated)"


def main(argv, here, repo):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--test")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()

    mplcfg = tempfile.mkdtemp(prefix="rascal_verif_")
    os.environ["MPLCONFIGDIR"] = mplcfg
    try:
        return _main(a, prop, seed, tier, t0, here, repo, mplcfg)
    finally:
        shutil.rmtree(mplcfg, ignore_errors=True)


def _main(a, prop, seed, tier, t0, here, repo, scratch):
    import rascal
    import rascal.calibrator  # noqa: F401

    src = os.path.realpath(os.path.dirname(rascal.__file__))
    if not src.startswith(os.path.realpath(repo) + os.sep):
        raise HarnessError("rascal imported from " + src)

    mod = importlib.import_module("checks." + prop.lower())
    tests = mod.TESTS
    if a.test:
        tests = [t for t in tests if t.name == a.test]

    if a.replay:
        r = json.load(open(a.replay))
        test = [t for t in mod.TESTS if t.name == r["test"]][0]
        rec = Rec(scratch)
        if isinstance(r["case"], dict) and "aggregate" in r["case"]:
            outs = []
            for c in r["case"]["aggregate"]:
                with quiet():
                    run_case(test, c, rec)
                outs.append([c, bool(rec._outcome)])
            msg = test.verdict(outs)
        else:
            with quiet():
                msg = run_case(test, r["case"], rec)
        if msg:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replay holds")
        return 0

    failures = []
    rec = Rec(scratch)

    # 1. known findings: probes of the recorded, unrepaired defects
    probes = getattr(mod, "KNOWN", {})
    findings = known_findings(here, prop)
    reproduced = []
    for ident, what in findings:
        if ident not in probes:
            raise HarnessError("no probe for " + ident)
        with quiet():
            hit = probes[ident]()
        if hit:
            reproduced.append(ident)
            print("KNOWN-FINDING: property=%s %s %s" % (prop, ident, what))
        else:
            print("note: %s no longer reproduces" % ident)
    unlisted = set(probes) - {i for i, _ in findings}
    if unlisted:
        raise HarnessError("probes without a listed finding: %s" % unlisted)

    # 2. saved regression cases
    n_corpus = 0
    for path in sorted(glob.glob(os.path.join(here, "corpus", prop, "*.json"))):
        r = json.load(open(path))
        ts = [t for t in tests if t.name == r["test"]]
        if not ts or ts[0].verdict:
            continue
        n_corpus += 1
        try:
            with quiet():
                msg = run_case(ts[0], r["case"], rec)
        except CaseTimeout:
            rec.label("corpus timeout")
            continue
        if msg:
            failures.append((ts[0].name, {"case": r["case"], "msg": msg}))
            break

    # 3. the search
    budget = 200.0 if tier == "quick" else 3000.0
    budget *= float(os.environ.get("VERIF_BUDGET_SCALE", "1"))
    deadline = time.time() + budget
    shrink_s = 25.0 if tier == "quick" else 90.0
    jobs = []
    for ti, t in enumerate(tests):
        n = max(1, int((t.quick if tier == "quick" else t.thorough) * a.scale))
        shards = t.shards if tier == "quick" else max(t.shards, 8)
        shards = max(1, min(shards, n))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            key = "%s/%s/%d/%d" % (prop, t.name, s, seed)
            sd = int(hashlib.sha1(key.encode()).hexdigest()[:12], 16)
            jobs.append((t, k, sd))
    ncpu = max(1, min(8, os.cpu_count() or 1))
    ctx = mp.get_context("fork")
    running, results, errors = [], [], []
    queue = list(enumerate(jobs)) if not failures else []
    try:
        while queue or running:
            while queue and len(running) < ncpu:
                i, (t, k, sd) = queue.pop(0)
                out = os.path.join(scratch, "r%d.json" % i)
                p = ctx.Process(
                    target=_entry,
                    args=(
                        (
                            t,
                            k,
                            sd,
                            deadline,
                            shrink_s,
                            out,
                            os.path.join(scratch, "w%d" % i),
                        ),
                    ),
                )
                p.start()
                running.append((p, t, out, i))
            time.sleep(0.02)
            still = []
            for p, t, out, i in running:
                if p.is_alive():
                    still.append((p, t, out, i))
                    continue
                p.join()
                shutil.rmtree(os.path.join(scratch, "w%d" % i), True)
                if p.exitcode != 0 or not os.path.exists(out):
                    msg = "%s: worker exit %s" % (t.name, p.exitcode)
                    if os.path.exists(out + ".error"):
                        msg += "\n" + open(out + ".error").read()[-3000:]
                    errors.append(msg)
                    continue
                r = json.load(open(out))
                r["test"] = t.name
                results.append(r)
                if r.get("error"):
                    errors.append("%s: %s" % (t.name, r["error"]))
                if r["failure"]:
                    failures.append((t.name, r["failure"]))
            running = still
            if failures:
                queue = []
                break
    finally:
        for p, t, out, i in running:
            p.terminate()
        for p, t, out, i in running:
            p.join(5)
            if p.is_alive():
                p.kill()

    # aggregate verdicts
    for t in tests:
        if t.verdict and not failures:
            outs = [
                o for r in results if r["test"] == t.name for o in r["outcomes"]
            ]
            msg = t.verdict(outs)
            if msg:
                failures.append(
                    (
                        t.name,
                        {
                            "case": {"aggregate": [o[0] for o in outs]},
                            "msg": msg,
                        },
                    )
                )

    # evidence
    per, labels, known = {}, {}, {}
    all_nt = set()
    for r in results:
        e = per.setdefault(
            r["test"],
            {"evaluations": 0, "nontrivial": set(), "timeouts": 0, "cut": 0},
        )
        e["evaluations"] += r["evals"]
        e["nontrivial"] |= set(r["nontrivial"])
        e["timeouts"] += r["timeouts"]
        e["cut"] += int(bool(r.get("cut")))
        for k, v in r["labels"].items():
            k = r["test"] + ": " + k
            labels[k] = labels.get(k, 0) + v
        for k, v in r.get("known", {}).items():
            known[k] = known.get(k, 0) + v
    samples = []
    for t in tests:
        for r in results:
            if r["test"] == t.name and r["samples"]:
                for smp in r["samples"][:2]:
                    samples.append({"test": t.name, "case": truncate(smp)})
                break
    for k, e in per.items():
        all_nt |= {k + x for x in e["nontrivial"]}
        e["nontrivial"] = len(e["nontrivial"])
    evals = sum(e["evaluations"] for e in per.values())
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(all_nt),
            "rule": "; ".join("%s: %s" % (t.name, t.rule) for t in tests),
            "samples": samples[:12],
            "per_test": per,
            "labels": labels,
            "saved_cases_replayed": n_corpus,
            "known_findings_reproduced": reproduced,
            "known_finding_cases_seen": known,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if failures:
        first = {}
        for name, f in failures:
            first.setdefault(name, f)
        for name, f in list(first.items())[:3]:
            path = write_replay(here, prop, name, f)
            print("%s: %s" % (name, f["msg"][:1500]))
            print("case: %s" % json.dumps(f["case"])[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("harness errors:\n" + "\n".join(errors), file=sys.stderr)
        return 2
    if evals == 0 or not all_nt:
        print("nothing was explored", file=sys.stderr)
        return 2
    print(
        "%s held: %d cases, %d distinct non-trivial, %.1f s"
        % (prop, evals, len(all_nt), time.time() - t0)
    )
    return 0
