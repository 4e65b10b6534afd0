"""P30: backends of plugins, reached through the one device interface."""
import copy

import numpy as np
import plaquette
from hypothesis import strategies as st
from plaquette.circuit import CircuitBuilder
from plaquette.device import AbstractSimulator, Device
from plaquette.frontend import DeviceConfig, ExperimentConfig

from . import circ, plugin
from .harness import Prop, require
from .p05 import shape
from .p23 import buildable, prepare

PROP = Prop(
    "P30",
    "histories of calls on several devices, some with backends of an installed plugin "
    "that records what reaches it and answers with unique objects or errors, mixed with "
    "simulators; experiments on such a backend; unknown names; own simulators with some "
    "methods missing; non-trivial: several devices or repeated runs; oracle: the log of "
    "the backend, the local simulator with the same seed",
    ["the plugin is described by a distribution on the Python path"],
)
CALLS = ["run", "run", "run", "get", "completed", "state", "n_qubits", "circuit", "set",
         "iter", "next", "reset"]
values = st.one_of(st.none(), st.integers(-3, 3), st.text(max_size=3), st.booleans(),
                   st.lists(st.integers(0, 3), max_size=2))
keys = st.sampled_from(["token", "url", "shots", "batch_size", "backend_options", "after_reset",
                        "name", "circuit"])
calls = st.fixed_dictionaries(dict(args=st.lists(values, max_size=3),
                                   kwargs=st.dictionaries(keys, values, max_size=3)))


@st.composite
def histories(draw):
    n = draw(st.integers(1, 3))
    g = [draw(circ.circuits(draw(st.integers(1, 3)), 3, chains=False,
                            inner=("X", "Y", "Z"))) for _ in range(n)]
    ops = [["new", "pbt-recorder", draw(calls)]]
    for _ in range(draw(st.integers(2, 12))):
        now = sum(o[0] == "new" for o in ops)
        k = draw(st.sampled_from(["new"] + CALLS))
        if k == "new":
            name = draw(st.sampled_from(["pbt-recorder"] * 3 + ["stim", "clifford"]))
            ops.append([k, name, draw(calls) if name[0] == "p" else dict(
                args=[], kwargs={})])
            continue
        op = [k, draw(st.integers(0, now - 1)), not draw(st.integers(0, 5))]
        if k == "run":
            op.append(dict(k=draw(st.integers(0, n - 1)), builder=draw(st.booleans()),
                           shots=draw(st.one_of(st.none(), st.integers(1, 10**6))),
                           reset=draw(st.sampled_from([None, None, True, False]))))
        elif k == "set":
            op.append(draw(st.integers(0, n - 1)))
        elif k == "reset":
            op.append(draw(calls))
        ops.append(op)
    return dict(g=g, ops=ops)


def outcome(f):
    try:
        return f()
    except plugin.Failure as e:
        return e


@PROP.part("delegation", histories(), 700, shards=4)
def delegation(case):
    """Each call reaches the device's own backend, and its answer the caller."""
    plugin.Recorder.made.clear()
    objs = [circ.build(g) for g in case["g"]]
    builders = [CircuitBuilder(c) for c in objs]
    texts = [str(c) for c in objs]
    devs, backs = [], []
    labels = set()
    for op in case["ops"]:
        if op[0] == "new":
            args, kwargs = copy.deepcopy((op[2]["args"], op[2]["kwargs"]))
            devs.append(Device(op[1], *args, **kwargs))
            if op[1] != "pbt-recorder":
                backs.append(None)
                continue
            require(len(plugin.Recorder.made) == sum(b is not None for b in backs) + 1,
                    "number of backends that are made:", len(plugin.Recorder.made))
            b = plugin.Recorder.made[-1]
            require(b.calls == [("init", tuple(args), kwargs)], "the backend is made by",
                    b.calls, "instead of", op[2])
            backs.append(b)
            continue
        dev, b = devs[op[1]], backs[op[1]]
        before = [x and len(x.calls) for x in backs]
        labels.add(op[0] + (" simulator" if b is None else " fails" if op[2] else ""))
        if b is None:
            if op[0] == "run":
                dev.run(objs[op[3]["k"]])
                shape(case["g"][op[3]["k"]], dev.get_sample())
            require(dev.is_completed is None, "jobs of a simulator")
        else:
            b.fail = op[2]
            got, want, exact = deliver(op, dev, objs, builders)
            new = b.calls[before[op[1]]:]
            require(new and (len(new) == 1 or not exact) and new[-1][0] == want[0],
                    op, "reaches the backend as", new)
            same(new[-1], want, objs, builders)
            answer = b.answers[-1]
            if op[0] == "iter" and not op[2]:
                require(list(got) == [b], "iterator of the backend")
            elif op[0] != "set" or op[2]:
                require(got is answer, op, "returns", got, "instead of", answer)
            before[op[1]] = len(b.calls)
        require(before == [x and len(x.calls) for x in backs],
                "a call reaches another backend")
        require(len(plugin.Recorder.made) == sum(x is not None for x in backs),
                "another backend is made")
    require(texts == [str(c) for c in objs], "a circuit is changed")
    return dict(nt=len(devs) > 1 or sum(o[0] == "run" for o in case["ops"]) > 1,
                labels=sorted(labels))


def deliver(op, dev, objs, builders):
    """Call the device; its answer, the expected call and whether it must be the only."""
    if op[0] == "run":
        kw = {}
        if op[3]["shots"] is not None:
            kw["shots"] = op[3]["shots"]
        if op[3]["reset"] is not None:
            kw["after_reset"] = op[3]["reset"]
        c = (builders if op[3]["builder"] else objs)[op[3]["k"]]
        got = outcome(lambda: dev.run(c, **kw))
        return got, ("run", op[3]["k"], op[3]["shots"] or 1), True
    if op[0] == "reset":
        a, k = copy.deepcopy((op[3]["args"], op[3]["kwargs"]))
        return outcome(lambda: dev.reset_backend(*a, **k)), ("reset", tuple(a), k), True
    if op[0] == "get":
        return outcome(dev.get_sample), ("get_sample", (), {}), True
    if op[0] == "set":
        c = objs[op[3]]
        return outcome(lambda: setattr(dev, "circuit", c)), ("set", c), True
    if op[0] == "iter":
        return outcome(lambda: iter(dev)), ("iter",), True
    if op[0] == "next":
        return outcome(lambda: next(dev)), ("next",), True
    attr = dict(completed="is_completed", state="state", n_qubits="n_qubits",
                circuit="circuit")[op[0]]
    return (outcome(lambda: getattr(dev, attr)),
            ("circ" if attr == "circuit" else attr,), False)


def same(call, want, objs, builders):
    if call[0] != "run":
        require(call == want and (call[0] != "set" or call[1] is want[1]),
                "the backend gets", call, "instead of", want)
        return
    args, kwargs = list(call[1]), dict(call[2])
    c = args.pop(0) if args else kwargs.pop("circuit")
    require(c is objs[want[1]] or c is builders[want[1]], "another circuit is run")
    require(not args and kwargs == dict(shots=want[2]), "circuit is run with", call[1:],
            "instead of", want[2], "shots")


NAMES = ["pbt-other", "pbt_recorder", "pbt-remote", "PBT-recorder", "Stim", "stim ", "", "qiskit",
         "clifford2", "CircuitSimulator", "plaquette.device", "pbt", "remote", "cliff", "X"]


@PROP.part("names", st.fixed_dictionaries(dict(
    name=st.one_of(st.sampled_from(NAMES), st.text(max_size=12)),
    good=st.sampled_from(["stim", "clifford", "pbt-recorder", "pbt_remote"]),
    call=calls)), 300)
def names(case):
    """Exactly the names of the installed backends are accepted."""
    good, bad = case["good"], case["name"]
    conf = DeviceConfig(name=good, shots=3)
    require(type(conf.instantiate()) is Device, "device of a configuration")
    if good == "pbt-recorder":
        made = len(plugin.Recorder.made)
        kw = case["call"]["kwargs"]
        conf.instantiate(**{k: v for k, v in kw.items()})
        require(plugin.Recorder.made[made:][0].calls == [("init", (), kw)],
                "options of a configured device:", plugin.Recorder.made[-1].calls)
    if bad in ("stim", "clifford", "pbt-recorder", "pbt_remote"):
        return False
    for f in (lambda: Device(bad, *case["call"]["args"], **case["call"]["kwargs"]),
              lambda: DeviceConfig(name=bad), lambda: DeviceConfig.from_dict(dict(name=bad)),
              lambda: conf.update(name=bad)):
        try:
            f()
        except ValueError:
            continue
        require(False, "a device called", repr(bad), "is accepted")
    conf.name = bad
    try:
        dev = conf.instantiate()
    except Exception:
        return dict(nt=True, labels=[good])
    require(False, "a device called", repr(bad), "is made:", dev)


@PROP.part("late", st.fixed_dictionaries(dict(
    backend=st.sampled_from(["stim", "clifford"]), args=st.lists(values, max_size=2),
    kwargs=st.dictionaries(st.sampled_from(["batchsize", "seed", "url", "sampler"]), values,
                           max_size=2),
    g=circ.circuits(2, 3, chains=False, inner=("X", "Y", "Z")))), 100)
def late(case):
    """Wrong options of a simulator are not checked before a circuit is run."""
    dev = Device(case["backend"], *case["args"], **case["kwargs"])
    c = circ.build(case["g"])
    if case["args"] or case["kwargs"]:
        try:
            dev.run(c)
        except Exception:
            return True
        require(False, "options", case["args"], case["kwargs"], "are accepted")
    dev.run(c)
    return False


@PROP.part("remote", buildable(st.integers(1, 12), True), 80, shards=2)
def remote(case):
    """An experiment on a backend of a plugin gives what the simulator gives."""
    prepare()
    d = copy.deepcopy(case)
    d["device"]["name"] = "pbt_remote"
    conf = ExperimentConfig.from_dict(copy.deepcopy(d))
    require(conf.as_dict()["device"] == d["device"], "configured device:",
            conf.as_dict()["device"])
    conf.build()
    require(type(conf.device) is Device, "device of the experiment")
    conf.build_device(url="there", delay=2)
    back = conf.device._backend if hasattr(conf.device, "_backend") else None
    if back is not None:
        require(back.url == "there" and back.delay == 2, "options of the device:",
                vars(back))
    shots, seed = d["device"]["shots"], d["general"]["seed"]
    plaquette.rng = np.random.default_rng(seed)
    require(conf.device.run(conf.circuit, shots=shots) == shots, "answer of the backend")
    require(conf.device.is_completed == [True] * shots, "jobs:", conf.device.is_completed)
    raw, erased = conf.device.get_sample()
    plaquette.rng = np.random.default_rng(seed)
    local = Device("clifford")
    for i in range(shots):
        local.run(conf.circuit)
        m, e = local.get_sample()
        require(list(m) == list(raw[i]), "shot", i, "gives", raw[i], "instead of", m)
        require((e is None or not len(e)) if erased[i] is None else
                list(e) == list(erased[i]), "erasures of shot", i)
    return dict(nt=shots > 1, labels=[d["code"]["name"]])


METHODS = ["reset", "run", "process_results"]


@PROP.part("own", st.fixed_dictionaries(dict(
    have=st.lists(st.sampled_from(METHODS), unique=True, max_size=3).map(sorted) |
    st.just(sorted(METHODS)), resets=st.lists(
        st.sampled_from([None, True, False]), min_size=1, max_size=4))), 60)
def own(case):
    """Simulators that derive from the base class run before they give a sample."""
    log = []

    def run(self, *, after_reset=True):
        log.append(("run", after_reset))

    def process_results(self):
        log.append(("process",))
        return log[-1], len(log)

    def reset(self):
        log.append(("reset",))

    every = dict(run=run, process_results=process_results, reset=reset)
    cls = type("Own", (AbstractSimulator,), {k: every[k] for k in case["have"]})
    try:
        sim = cls()
    except TypeError:
        require(len(case["have"]) < 3, "a complete simulator is refused")
        return True
    require(len(case["have"]) == 3, "a simulator without", set(METHODS) - set(case["have"]))
    for r in case["resets"]:
        log.clear()
        got = sim.get_sample(**({} if r is None else dict(after_reset=r)))
        require(log == [("run", r is not False), ("process",)], "calls:", log)
        require(got == (("process",), 2), "sample:", got)
    return True
