"""Command line: ``main <property> [tier] [--part NAME]`` or ``main --replay FILE``."""
import importlib
import json
import os
import sys
import time
import warnings

warnings.filterwarnings("ignore")
from . import deps, harness  # noqa: E402

deps.load()
deps.metadata()
sys.path.insert(0, harness.REPO_SRC)


def load(pid):
    if pid == "P30":
        deps.plugin()
    import plaquette

    assert os.path.realpath(plaquette.__file__).startswith("/repo/src/"), plaquette
    warnings.filterwarnings("ignore")
    return importlib.import_module(f"pbt.{pid.lower()}").PROP


def replay(path):
    d = json.load(open(path))
    prop = load(d["property"])
    part = next(p for p in prop.parts if p.name == d["part"])
    r = harness.Runner(part, "quick")
    try:
        r.run_case(d["case"])
    except (Exception, harness.Stop) as e:
        print(r.fail[1] if r.fail else harness.describe(e))
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print("the case passes")
    return 0


def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[argv.index("--part") + 1 :] if "--part" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = os.environ["PBT_WORK"]
    t0 = time.monotonic()
    evidence = os.path.join(harness.HERE, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    prop = load(pid)
    results, errors = harness.run_prop(prop, tier, seed, work, only)
    fails = sorted(
        (r for r in results if r["fail"]), key=lambda r: len(harness.canon(r["fail"]))
    )
    parts, labels, samples, observed = {}, {}, [], set()
    for r in sorted(results, key=lambda r: (r["part"], r["shard"])):
        d = parts.setdefault(
            r["part"], dict(evaluations=0, h=set(), wall_s=0.0, truncated=False)
        )
        d["evaluations"] += r["evaluations"]
        d["h"] |= set(r["nontrivial"])
        d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
        d["truncated"] |= r["truncated"]
        for k, v in r["labels"].items():
            k = f"{r['part']}: {k}"
            labels[k] = labels.get(k, 0) + v
        if r["shard"] == 0:
            samples += r["samples"][:2]
        observed |= set(r["known"])
    for d in parts.values():
        d["distinct_nontrivial"] = len(d.pop("h"))
    n = sum(d["evaluations"] for d in parts.values())
    nt = sum(d["distinct_nontrivial"] for d in parts.values())
    with open(evidence, "w") as f:
        json.dump(
            dict(
                property=pid, tier=tier, seed=seed, level="exploration",
                coverage=dict(
                    evaluations=n, distinct_nontrivial=nt, rule=prop.rule,
                    samples=samples[:20] or ["none"], parts=parts, classes=labels,
                ),
                assumptions=prop.assumptions,
                wall_s=round(time.monotonic() - t0, 2), violations=len(fails),
            ),
            f, indent=1, default=str,
        )
        f.write("\n")
    for kid in sorted(observed):
        d = harness.known_findings()[kid]
        print(f"KNOWN-FINDING: property={pid} {d['what']}")
    for name, d in parts.items():
        print(f"{pid} {name}: {d['evaluations']} cases, "
              f"{d['distinct_nontrivial']} distinct non-trivial, {d['wall_s']} s"
              + (" (stopped early)" if d["truncated"] else ""))
    if os.environ.get("PBT_LABELS"):
        for k, v in sorted(labels.items()):
            print("   ", k, v)
    if fails:
        out = os.path.join(harness.HERE, "replays")
        os.makedirs(out, exist_ok=True)
        seen = set()
        for r in fails:
            if r["part"] in seen:
                continue
            seen.add(r["part"])
            case, msg = r["fail"]
            path = os.path.join(out, f"{pid}-{r['part']}-{seed}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, part=r["part"], case=case, message=msg),
                          f, indent=1, default=str)
            print(f"{r['part']}: {msg}\n  case: {harness.canon(case)[:2000]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    for e in errors:
        print("ERROR", e, file=sys.stderr)
    if errors or n == 0:
        return 2
    print(f"{pid}: held on {n} cases ({nt} distinct non-trivial), "
          f"{time.monotonic() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
