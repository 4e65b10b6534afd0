"""Other Python processes, with other hash seeds, that evaluate functions of the checks.

``call("p24", "outcome", arg, 1)`` evaluates ``pbt.p24.outcome(arg)`` in a process whose
sets and dictionaries of strings have another order than those of this process.
"""
import importlib
import json
import os
import subprocess
import sys

_workers = {}


def call(module, function, arg, hashseed):
    key = os.getpid(), hashseed
    p = _workers.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
                   PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = _workers[key] = subprocess.Popen(
            [sys.executable, "-m", "pbt.twin"], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
    p.stdin.write(json.dumps([module, function, arg]) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError(f"a process with hash seed {hashseed} ended unexpectedly")
    ok, res = json.loads(line)
    if not ok:
        raise AssertionError(f"in a process with hash seed {hashseed}: {res}")
    return res


def main():
    import warnings

    warnings.filterwarnings("ignore")
    from . import deps, harness

    deps.load()
    deps.metadata()
    sys.path.insert(0, harness.REPO_SRC)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
    for line in sys.stdin:
        module, function, arg = json.loads(line)
        try:
            f = getattr(importlib.import_module(f"pbt.{module}"), function)
            res = [True, f(arg)]
        except Exception as e:  # the caller reports it
            res = [False, harness.describe(e)]
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
