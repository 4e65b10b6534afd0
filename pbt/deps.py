"""Make hypothesis importable from one of the local copies."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = "/opt/veriftools/wheels"
VTOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _try():
    try:
        import hypothesis  # noqa: F401

        return True
    except ImportError:
        return False


def load():
    path = os.path.join(HERE, ".deps")
    if os.path.isdir(os.path.join(path, "hypothesis")):
        sys.path.append(path)
        if _try():
            return
        sys.path.remove(path)
    if _try():
        return
    work = os.environ.get("PBT_WORK") or "/tmp"
    path = os.path.join(work, "deps")
    subprocess.call(
        [sys.executable, "-m", "pip", "install", "-q", "--no-index", "--find-links",
         WHEELS, "--no-deps", "--target", path, "hypothesis", "sortedcontainers"]
    )
    sys.path.append(path)
    if _try():
        return
    os.makedirs(path + "2", exist_ok=True)
    for name in ("hypothesis", "sortedcontainers", "_hypothesis_globals.py",
                 "_hypothesis_ftz_detector.py"):
        if os.path.exists(os.path.join(VTOOLS, name)):
            os.symlink(os.path.join(VTOOLS, name), os.path.join(path + "2", name))
    sys.path.append(path + "2")
    if not _try():
        raise ImportError("no usable copy of hypothesis found")


def metadata():
    """Describe plaquette's backends if it is not installed (its entry points)."""
    from importlib import metadata as md

    for d in md.distributions():
        if (d.metadata["Name"] or "").lower() == "plaquette" and d.entry_points:
            return
    import tomllib

    groups = tomllib.load(open("/repo/pyproject.toml", "rb"))["project"]["entry-points"]
    path = os.path.join(os.environ.get("PBT_WORK") or "/tmp", "meta")
    info = os.path.join(path, "plaquette-0.dist-info")
    os.makedirs(info, exist_ok=True)
    with open(os.path.join(info, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: plaquette\nVersion: 0\n")
    with open(os.path.join(info, "entry_points.txt"), "w") as f:
        for g, d in groups.items():
            f.write(f"[{g}]\n" + "".join(f"{k} = {v}\n" for k, v in d.items()))
    sys.path.append(path)


def plugin():
    """Describe the backends in :mod:`pbt.plugin` as those of an installed plugin."""
    path = os.path.join(os.environ.get("PBT_WORK") or "/tmp", "plugin")
    info = os.path.join(path, "pbt_plugin-1.0.dist-info")
    os.makedirs(info, exist_ok=True)
    with open(os.path.join(info, "METADATA"), "w") as f:
        f.write("Metadata-Version: 2.1\nName: pbt-plugin\nVersion: 1.0\n")
    with open(os.path.join(info, "entry_points.txt"), "w") as f:
        f.write("[plaquette.device]\npbt-recorder = pbt.plugin:Recorder\n"
                "pbt_remote = pbt.plugin:Remote\n"
                "[plaquette.other]\npbt-other = pbt.plugin:Remote\n")
    sys.path.append(path)
