"""Runs the parts of a check: generated-input search with Hypothesis.

A *part* is a strategy that generates JSON-able cases together with a function
that decides one case against an oracle.  Every random choice is in the case (or
derived from it), so a case is its own replay file.
"""
import hashlib
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
KNOWN_FILE = os.path.join(HERE, "known_findings.jsonl")
CASE_LIMIT = 90  # seconds; no case comes near it unless the code hangs
# Factors for the number of shards in the quick tier: about 45 s on eight cores
QUICK = dict(P01=6, P02=6, P03=5, P04=2, P06=2, P08=3, P10=10, P11=3, P12=6, P13=5, P14=6,
             P15=5, P16=4, P17=2, P18=4, P20=6, P21=3, P22=3, P23=2, P25=3, P26=3, P27=5, P28=4,
             P29=2)
SHRINK_LIMIT = {"quick": 45, "thorough": 180}
MEM_LIMIT = 8 << 30


class Violation(Exception):
    """The code under test breaks the property on this case."""


class Hang(BaseException):
    """A case ran into the time limit."""


class Stop(BaseException):
    """Ends the search from inside of a test function."""


class Part:
    def __init__(self, name, strategy, check, n, shards, thorough, examples):
        self.name, self.strategy, self.check = name, strategy, check
        self.n, self.shards, self.thorough = n, shards, thorough
        self.examples = examples


class Prop:
    def __init__(self, pid, rule, assumptions=()):
        self.id, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.parts = []

    def part(self, name, strategy, n, shards=1, thorough=12, examples=()):
        """Register a check function (decorator).

        ``n`` is the number of generated cases per shard in the quick tier, the
        thorough tier multiplies it by ``thorough`` and doubles the shards.
        """

        def deco(f):
            self.parts.append(
                Part(name, strategy, f, n, shards, thorough, list(examples))
            )
            return f

        return deco


def require(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


_known = None


def known_findings():
    global _known
    if _known is None:
        _known = {}
        if os.path.exists(KNOWN_FILE):
            for line in open(KNOWN_FILE):
                if line.strip():
                    d = json.loads(line)
                    if d.get("status") == "known":
                        _known[d["id"]] = d
    return _known


_observed = set()


def known(kid, msg):
    """A case shows exactly the recorded defect ``kid``: note it, or fail."""
    if kid not in known_findings():
        raise Violation(f"{msg} (not a listed finding)")
    _observed.add(kid)
    return [f"known:{kid}"]


def seed_int(*args):
    h = hashlib.sha256(repr(args).encode()).digest()
    return int.from_bytes(h[:8], "big")


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=str)


def _alarm(*_):
    raise Hang(f"no result after {CASE_LIMIT} s")


class Runner:
    """Evaluates cases of one part in this process."""

    def __init__(self, part, tier, lastfile=None, budget=1e9):
        self.part, self.tier, self.lastfile = part, tier, lastfile
        self.t0, self.budget = time.monotonic(), budget
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.fail = None
        self.first_fail = None
        self.truncated = False
        self.hang = False

    def run_case(self, case):
        """Run the check on one case, raises when the case fails."""
        if self.lastfile:
            with open(self.lastfile, "w") as f:
                f.write(canon(case))
        self.evaluations += 1
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_LIMIT)
        try:
            res = self.part.check(json.loads(canon(case)))
        except Hang as e:
            self.fail = (case, f"Hang: {e}")
            self.hang = True
            raise Stop() from None
        finally:
            signal.alarm(0)
        nt, labels = True, []
        if isinstance(res, dict):
            nt, labels = res.get("nt", True), res.get("labels", [])
        elif isinstance(res, (list, tuple)):
            labels = res
        elif res is False:
            nt = False
        for lab in labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if nt:
            c = canon(case)
            h = hashlib.sha1(c.encode()).digest()[:12]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                k = len(self.nontrivial)
                if k in (1, 10, 100) and len(c) < 3000:
                    self.samples.append(dict(part=self.part.name, case=case))

    def guarded(self, case):
        """As run_case, but records failures and enforces the budgets."""
        now = time.monotonic()
        if self.first_fail is None:
            if now - self.t0 > self.budget:
                self.truncated = True
                raise Stop()
        elif now - self.first_fail > SHRINK_LIMIT[self.tier]:
            raise Stop()
        try:
            self.run_case(case)
        except Exception as e:
            if self.first_fail is None:
                self.first_fail = time.monotonic()
                self.fail = None
            if self.fail is None or len(canon(case)) <= len(canon(self.fail[0])):
                self.fail = (case, describe(e))
            raise


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb
             if "/repo/" in f.filename or "/pbt/" in f.filename]
    return f"{type(e).__name__}: {str(e)[:2000]}\n  " + "\n  ".join(where[-6:])


def search(part, tier, seed, shard, lastfile, budget):
    """Generated search over one shard of a part."""
    import hypothesis as hy
    from hypothesis import HealthCheck, Phase, settings

    r = Runner(part, tier, lastfile, budget)
    n = part.n if tier == "quick" else part.n * part.thorough

    @hy.seed(seed)
    @settings(
        max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink), print_blob=False,
        suppress_health_check=list(HealthCheck),
    )
    @hy.given(part.strategy)
    def test(case):
        r.guarded(case)

    try:
        if shard == 0:
            for case in part.examples:
                r.guarded(case)
        test()
    except Stop:
        pass
    except Exception as e:
        if r.fail is None:  # an error of the strategy, not of the check
            raise
        if "Flaky" in type(e).__name__:
            r.fail = (r.fail[0], r.fail[1] + "\n  (depends on earlier cases)")
    return dict(
        part=part.name, shard=shard, evaluations=r.evaluations,
        nontrivial=[h.hex() for h in r.nontrivial], labels=r.labels,
        samples=r.samples[:3], fail=r.fail, truncated=r.truncated,
        known=sorted(_observed), wall=time.monotonic() - r.t0,
    )


def _child(part, tier, seed, shard, work, budget):
    """Body of a forked worker; never returns."""
    base = os.path.join(work, f"{part.name}.{shard}")
    code = 3
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        devnull = os.open("/dev/null", os.O_WRONLY)
        os.dup2(devnull, 1)
        os.makedirs(base + ".d")
        os.chdir(base + ".d")
        res = search(part, tier, seed, shard, base + ".last", budget)
        with open(base + ".json", "w") as f:
            json.dump(res, f, default=str)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stderr.flush()
        os._exit(code)


def run_prop(prop, tier, seed, work, only=None):
    """Run all parts of a property, in parallel; returns list of results."""
    budget = 330 if tier == "quick" else 2400
    hard = 560 if tier == "quick" else 3600
    tasks = []
    for p in prop.parts:
        if only and p.name not in only:
            continue
        shards = p.shards * QUICK.get(prop.id, 1)
        if tier != "quick":
            shards = max(p.shards * 2, 2)
        for s in range(shards):
            tasks.append((p, s))
    tasks.sort(key=lambda t: t[1])
    ncpu = max(1, len(os.sched_getaffinity(0)))
    running, results, errors = {}, [], []
    start = time.monotonic()
    while tasks or running:
        while tasks and len(running) < ncpu:
            p, s = tasks.pop(0)
            sys.stdout.flush()
            sys.stderr.flush()
            left = max(20, budget - (time.monotonic() - start))
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                _child(p, tier, seed_int(seed, prop.id, p.name, s), s, work, left)
            running[pid] = (p, s)
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.02)
            if time.monotonic() - start > hard:
                for q, (p, s) in running.items():
                    os.kill(q, signal.SIGKILL)
                    os.waitpid(q, 0)
                    results.append(_crash(work, p, s, "no result: code hangs"))
                running.clear()
                tasks.clear()
            continue
        if pid not in running:
            continue
        p, s = running.pop(pid)
        base = os.path.join(work, f"{p.name}.{s}")
        if os.path.exists(base + ".json"):
            results.append(json.load(open(base + ".json")))
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) != signal.SIGKILL:
            results.append(_crash(work, p, s, f"crash, signal {os.WTERMSIG(status)}"))
        else:
            errors.append(f"{p.name}.{s}: worker ended with status {status}")
    return results, errors


def _crash(work, p, s, msg):
    try:
        case = json.load(open(os.path.join(work, f"{p.name}.{s}.last")))
    except (OSError, ValueError):
        case = None
    return dict(part=p.name, shard=s, evaluations=1, nontrivial=[], labels={},
                samples=[], fail=(case, msg), truncated=True, known=[], wall=0)
