"""P23: experiment configurations."""
import copy
import json
import os

import toml
from hypothesis import strategies as st
from plaquette import decoders
from plaquette.circuit import Circuit
from plaquette.frontend import (CircuitConfig, CodeConfig, DecoderConfig, DeviceConfig,
                                ErrorsConfig, ExperimentConfig, GateErrorsConfig,
                                QubitErrorsConfig)

from . import configs, tables
from .harness import Prop, canon, known, require, seed_int

PROP = Prop(
    "P23",
    "random configurations with any subset of the optional parts, as dictionaries, TOML "
    "and JSON files; the same with one setting spoiled; histories of updates, valid or "
    "not; non-trivial: at least three parts given, or at least two updates; oracle: an "
    "own reading of the documented settings and defaults, round trips",
)


def prepare():
    tables.quiet()
    for f, head in (("q.csv", "qubit_id,qubit_type"), ("g.csv",
                                                       "gate,on_qubits,induced_errors,probs")):
        with open(f, "w") as h:
            h.write(head + "\n")
    if os.path.exists("missing.csv"):
        os.remove("missing.csv")


def errors(e):
    return dict(errors=e)


def settings(conf):
    """All settings of a configuration object, attribute by attribute."""
    q, g = conf.errors_conf.qubit_errors, conf.errors_conf.gate_errors
    c = conf.code_conf

    def take(o, names):
        return {k: copy.deepcopy(getattr(o, k)) for k in names}

    paths = ["data_path", "sample", "load_file"]
    code = take(c, ["name", "rounds", "size"])
    if c.name not in configs.SIZED:
        require(code.pop("size") == -1, "size of", c)
    return dict(
        general=dict(conf.general_conf), device=take(conf.device_conf, ["name", "shots"]),
        circuit=take(conf.circuit_conf, ["circuit_provided", "has_errors",
                                         "circuit_path"]),
        code=code, decoder=take(conf.decoder_conf, ["name", "weighted"]),
        errors=dict(
            qubit_errors=take(q, paths) | {
                k: take(getattr(q, k), ["distribution", "params", "enabled"])
                for k in configs.QUBIT},
            gate_errors=take(g, paths) | {
                k: take(getattr(g, k), ["distribution", "induced_errors", "params",
                                        "enabled"]) for k in configs.GATE}))


def agree(conf, want, how):
    got = settings(conf)
    for k in want:
        require(got[k] == want[k], how, k, "is", got[k], "instead of", want[k])
    sim = configs.simulated(want)
    q, g = conf.errors_conf.qubit_errors, conf.errors_conf.gate_errors
    got = (q.simulated_errors, g.simulated_errors)
    require(got == sim and conf.errors_conf.simulated_errors == sim, how,
            "simulated errors are", got, "instead of", sim)


@PROP.part("round_trip", configs.configs(), 120, shards=4, thorough=15)
def round_trip(case):
    prepare()
    d = copy.deepcopy(case)
    want = configs.expected(case)
    conf = ExperimentConfig.from_dict(d)
    require(d == case, "the given dictionary is changed to", d)
    agree(conf, want, "read:")
    out = conf.as_dict()
    require(conf.validate() is True, "validation")
    agree(conf, want, "written:")
    again = ExperimentConfig.from_dict(out)
    agree(again, want, "as_dict:")
    require(again.as_dict() == conf.as_dict(), "as_dict of the copy differs")
    conf.dump_toml("out.toml")
    conf.dump_json("out.json")
    agree(ExperimentConfig.load_toml("out.toml"), want, "TOML:")
    agree(ExperimentConfig.load_json("out.json"), want, "JSON:")
    require(isinstance(str(conf), str), "text")
    case["code"].setdefault("rounds", 1)  # mandatory in files
    if case["code"].get("size") == -1:
        del case["code"]["size"]
    with open("in.toml", "w") as f:
        toml.dump(case, f)
    with open("in.json", "w") as f:
        json.dump(case, f)
    agree(ExperimentConfig.load_toml("in.toml"), want, "TOML file:")
    agree(ExperimentConfig.load_json("in.json"), want, "JSON file:")
    # the parts alone
    for cls, part in ((CodeConfig, conf.code_conf), (DeviceConfig, conf.device_conf),
                      (CircuitConfig, conf.circuit_conf),
                      (DecoderConfig, conf.decoder_conf),
                      (QubitErrorsConfig, conf.errors_conf.qubit_errors),
                      (GateErrorsConfig, conf.errors_conf.gate_errors)):
        new = cls.from_dict(part.as_dict())
        require(new == part, cls.__name__, "is read as", new, "instead of", part)
        require(isinstance(str(part), str), "text")
    for name in ("errors", "circuit", "device", "decoder"):
        try:
            getattr(conf, name)
        except ValueError:
            continue
        require(False, name, "exists before it is built")
    return dict(nt=len(case) + len(case["errors"]) >= 3,
                labels=[f"parts {len(case)}", case["code"]["name"]])


# One wrong setting.
WRONG = dict(
    text=["", "foo", "planar", None, 3],
    positive=[0, -1, -10**9, "3", 2.5, None],
    flag=[None, "true", 2],
)


def spoils(d, e):
    """Changes (path, values) which make a configuration invalid."""
    out = [(["code", "name"], WRONG["text"] + ["planarcode", "RotatedPlanar"]),
           (["code", "rounds"], WRONG["positive"]),
           (["device", "name"], WRONG["text"] + ["Stim", "qiskit"]),
           (["device", "shots"], WRONG["positive"]),
           (["decoder", "name"], WRONG["text"] + ["pymatching", "DecoderInterface"]),
           (["general", "logical_op"], ["", "Y", "I", "x", "XXXX", None, 7]),
           (["general", "seed"], [-1, 1.5, "seed"]),
           (["errors", "qubit_errors", "load_file", "data_path"],
            [[True, "missing.csv"], [False, "no/such/folder/q.csv"]]),
           (["errors", "gate_errors", "load_file", "data_path"],
            [[True, "missing.csv"], [False, "no/such/folder/q.csv"]]),
           (["circuit", "circuit_provided", "circuit_path"],
            [[True, "no circuit.txt"], [False, "no/such/folder/c.txt"]])]
    if e["code"]["name"] in configs.SIZED:
        out += [(["code", "size"], WRONG["positive"])] * 2
    for k in configs.QUBIT[:5]:
        out.append((["errors", "qubit_errors", k], [
            dict(distribution="uniform", params=[0.1]), dict(params=[0.1]),
            dict(distribution="Constant", params=[0.1]),
            dict(distribution="constant"), dict(distribution="constant", params=[]),
            dict(distribution="constant", params=[0.1, 0.2]),
            dict(distribution="gaussian", params=[0.1]),
            dict(distribution="gaussian"),
            dict(distribution="gaussian", params=[0.1, 0.01, 0.1]),
            dict(distribution="user", params=[0.1]), dict(distribution=3, params=[0.1]),
            dict(distribution="user", params=[0.0]),
            dict(distribution="user", params=[0, 0])]))
        out.append((["errors", "qubit_errors", k, "!"], [
            dict(distribution="constant", params=[1.1]),
            dict(distribution="constant", params=[-0.1]),
            dict(distribution="gaussian", params=[1.5, 0.1]),
            dict(distribution="gaussian", params=[-0.5, 0.1]),
            dict(distribution="gaussian", params=[0.5, -0.1])]))
    for k in configs.GATE[:5]:
        good, wrong = ("ZX", "Z") if k in tables.TWO else ("Z", "ZX")
        out.append((["errors", "gate_errors", k], [
            dict(distribution=["uniform"], induced_errors=[good], params=[[0.1]]),
            dict(distribution=["user"], induced_errors=[good], params=[[0.1]]),
            dict(distribution=["constant"], induced_errors=["W"], params=[[0.1]]),
            dict(distribution=["constant"], induced_errors=["II"], params=[[0.1]]),
            dict(distribution=["constant"], induced_errors=["XYZ"], params=[[0.1]]),
            dict(distribution=["constant"], induced_errors=[good], params=[]),
            dict(distribution=["constant"], induced_errors=[good], params=[[]]),
            dict(distribution=["constant"], induced_errors=[good], params=[[0.1, 0.1]]),
            dict(distribution=["gaussian"], induced_errors=[good], params=[[0.1]]),
            dict(distribution=["constant"], induced_errors=[], params=[[0.1]]),
            dict(distribution="user", induced_errors=[good], params=[[0.1]])]))
        out.append((["errors", "gate_errors", k, "!"], [
            dict(distribution=["constant"], induced_errors=[good], params=[[1.1]]),
            dict(distribution=["constant"], induced_errors=[good], params=[[-0.1]]),
            dict(distribution=["gaussian"], induced_errors=[good], params=[[2, 0.1]]),
            dict(distribution=["gaussian"], induced_errors=[good], params=[[0.5, -1]]),
            dict(distribution=["constant"], induced_errors=[wrong], params=[[0.1]])]))
    return out


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


@PROP.part("refused", st.tuples(configs.configs(), st.integers(0, 27),
                                st.integers(0, 10),
                                st.sampled_from(["dict", "toml", "json"])).map(list),
           300, shards=3, thorough=15)
def refused_setting(case):
    """A configuration with one wrong setting is refused at once, or when built if the
    setting depends on the code."""
    d, i, j, how = case
    i, j = seed_int(i, canon(d)), seed_int(j, canon(d))
    prepare()
    e = configs.expected(d)
    d["decoder"] = dict(name="UnionFindNoWeights", weighted=False)  # fits all errors
    if e["code"]["name"] == "ToricCode":
        d["code"]["name"] = "PlanarCode"
    d["device"] = dict(name="stim", shots=10)
    d["errors"] = {k: v for k, v in d["errors"].items() if how == "never"}
    if refused(lambda: ExperimentConfig.from_dict(copy.deepcopy(d)).build()):
        require(False, "a valid configuration is refused:", d)
    all_ = spoils(d, e)
    d["code"].setdefault("rounds", 1)
    if d["code"].get("size") == -1:
        del d["code"]["size"]
    path, values = all_[i % len(all_)]
    late = path[-1] == "!" or path[0] == "general"  # depends on the code
    value = values[j % len(values)]
    d.setdefault("general", dict(logical_op="X", qec_property=["logical_error_rate"],
                                 seed=5))
    if path[-1] == "!":
        path = path[:-1]
        d["errors"].setdefault(path[1], {})["sample"] = True
    x = d
    if isinstance(value, list):
        for k in path[:-2]:
            x = x.setdefault(k, {})
        x[path[-2]], x[path[-1]] = value
    else:
        for k in path[:-1]:
            x = x.setdefault(k, {})
        x[path[-1]] = value

    def run(build=True):
        if how == "dict":
            conf = ExperimentConfig.from_dict(d)
        else:
            f = "bad." + how
            with open(f, "w") as h:
                h.write(toml.dumps(d) if how == "toml" else json.dumps(d))
            conf = getattr(ExperimentConfig, "load_" + how)(f)
        if build:
            conf.build()

    if how == "toml" and (value is None or isinstance(value, dict) and None in
                          value.values()):
        return False  # TOML has no such value
    require(refused(lambda: run(late)), "setting", path, "=", value, "is accepted")
    return dict(nt=True, labels=[how, "/".join(path)])


@PROP.part("missing", st.tuples(configs.configs(), st.integers(0, 19), st.sampled_from(
    ["toml", "json"])).map(list), 60, thorough=10)
def missing(case):
    """Files without mandatory parts or with wrong types of parts are refused."""
    d, i, how = case
    i = seed_int(i, canon(d))
    prepare()
    k = ["code", "errors", "name", "code type", "errors type", "property", "device type",
         "weighted", "seed", "logical"][i % 10]
    d.setdefault("general", dict(logical_op="X", qec_property=["logical_error_rate"],
                                 seed=5))
    if k in ("code", "errors"):
        del d[k]
    elif k == "name":
        del d["code"]["name"]
    elif k in ("code type", "errors type", "device type"):
        d[k.split()[0]] = "text"
    elif k == "property":
        d["general"]["qec_property"] = [["error rate"], "logical_error_rate"][i // 10 % 2]
    elif k == "weighted":
        d["decoder"] = dict(weighted="yes")
    else:
        del d["general"]["seed" if k == "seed" else "logical_op"]
    f = "bad." + how
    with open(f, "w") as h:
        h.write(toml.dumps(d) if how == "toml" else json.dumps(d))
    require(refused(lambda: getattr(ExperimentConfig, "load_" + how)(f)), "file with wrong",
            k, "is accepted")
    return dict(nt=True, labels=[k])


# Updates.
@st.composite
def updates(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        part = draw(st.sampled_from(["code", "device", "decoder", "qubit", "gate",
                                     "meta", "gmeta", "circuit", "general",
                                     "nested"]))
        op = [part]
        if part == "code":
            op.append(draw(configs.code_dicts()))
        elif part == "device":
            op.append(draw(st.fixed_dictionaries({}, optional=dict(
                name=st.sampled_from(["stim", "clifford", "foo", None]),
                shots=st.sampled_from([1, 7, 10**6, 0, -3, "7", 0.5])))))
        elif part == "decoder":
            op.append(draw(st.fixed_dictionaries({}, optional=dict(
                name=st.sampled_from(configs.DECODERS + ["foo", ""]),
                weighted=st.booleans()))))
        elif part == "qubit":
            d = draw(configs.qubit_dicts())
            op.append(d)
        elif part == "gate":
            op.append(draw(configs.gate_dicts()))
        elif part == "meta":
            name, params = draw(configs.distribution())
            op += [draw(st.sampled_from(configs.QUBIT[:5])),
                   dict(distribution=name, params=params + draw(st.sampled_from(
                       [[], [], [], [0.1]])), enabled=draw(st.booleans()))]
        elif part == "gmeta":
            ds = [draw(configs.distribution(False)) for _ in range(draw(
                st.integers(1, 3)))]
            names = draw(st.permutations(["XX", "IZ", "X", "YI"]))[:len(ds)]
            spoil = draw(st.sampled_from([None, None, "name", "length", "params",
                                          "kind"]))
            d = dict(distribution=[x for x, _ in ds], induced_errors=list(names),
                     params=[p for _, p in ds], enabled=draw(st.booleans()))
            if spoil == "name":
                d["induced_errors"][-1] = draw(st.sampled_from(["II", "XXX", "W", ""]))
            elif spoil == "length":
                d["params"].append([0.1])
            elif spoil == "params":
                d["params"][0] = d["params"][0] * 3
            elif spoil == "kind":
                d["distribution"][0] = "user"
            op += [draw(st.sampled_from(configs.GATE[:5])), spoil, d]
        elif part == "circuit":
            op.append(draw(st.fixed_dictionaries({}, optional=dict(
                circuit_provided=st.booleans(), has_errors=st.booleans(),
                circuit_path=st.sampled_from(["q.csv", "missing.csv", "no/c.txt"])))))
        elif part == "nested":
            op.append(draw(configs.configs()))
        else:
            op.append(dict(logical_op=draw(st.sampled_from("XZ")),
                           qec_property=["logical_error_rate"],
                           seed=draw(st.integers(0, 99))))
        ops.append(op)
    return dict(first=draw(configs.configs()), ops=ops)


def bad(part, d):
    if part == "device":
        return d.get("name", "stim") not in ("stim", "clifford") or not (
            isinstance(d.get("shots", 1), int) and d.get("shots", 1) > 0)
    if part == "decoder":
        return d.get("name", configs.DECODERS[0]) not in configs.DECODERS
    if part == "meta":
        return len(d["params"]) != dict(user=0, constant=1, gaussian=2)[d["distribution"]]
    return False


@PROP.part("updates", updates(), 200, shards=3, thorough=15)
def update(case):
    """Histories of updates against a model of the settings."""
    prepare()
    e = configs.expected(case["first"])
    conf = ExperimentConfig.from_dict(case["first"])
    done, labels = 0, set()
    for op in case["ops"]:
        part, d = op[0], op[-1]
        d = copy.deepcopy(d)
        q, g = conf.errors_conf.qubit_errors, conf.errors_conf.gate_errors
        if part == "code":
            f, t = conf.code_conf.update, e["code"]
        elif part in ("device", "decoder"):
            f, t = getattr(conf, part + "_conf").update, e[part]
        elif part == "meta":
            f, t = getattr(q, op[1]).update, e["errors"]["qubit_errors"][op[1]]
        elif part == "gmeta":
            meta, t = getattr(g, op[1]), e["errors"]["gate_errors"][op[1]]
            keep = copy.deepcopy(t)
            if op[2]:
                require(refused(lambda: meta.update(**d)), "update", op, "is accepted")
                labels.add("refused gmeta")
                meta.update(**copy.deepcopy(keep))
            else:
                meta.update(**d, unknown=1)
                t |= copy.deepcopy(op[-1])
                done += 1
            agree(conf, e, f"{op}:")
            continue
        elif part == "circuit":
            new = e["circuit"] | d
            path = new["circuit_path"]
            if "/" in path or new["circuit_provided"] and path != "q.csv":
                try:
                    conf.circuit_conf.update(**d)
                except (NotADirectoryError, FileNotFoundError):
                    conf.circuit_conf.update(**e["circuit"])
                    labels.add("refused circuit")
                else:
                    require(False, "update", op, "is accepted")
            else:
                conf.circuit_conf.update(**d)
                e["circuit"] = new
                done += 1
            agree(conf, e, f"{op}:")
            continue
        elif part == "general":
            conf.update(general_conf=d)
            e["general"] = copy.deepcopy(d)
            agree(conf, e, f"{op}:")
            continue
        elif part == "nested":
            new = ExperimentConfig.from_dict(d)
            x = configs.expected(op[-1])
            conf.update(code_conf=new.code_conf, decoder_conf=new.decoder_conf)
            conf.errors_conf.update(gate_errors=new.errors_conf.gate_errors)
            e |= dict(code=x["code"], decoder=x["decoder"])
            e["errors"]["gate_errors"] = x["errors"]["gate_errors"]
            agree(conf, e, f"{op}:")
            done += 1
            continue
        else:
            f, t = (q if part == "qubit" else g).update, e["errors"][part + "_errors"]
            if part == "qubit":
                x = configs.expected(dict(code=case["first"]["code"],
                                          errors=dict(qubit_errors=d)))
            else:
                x = configs.expected(dict(code=case["first"]["code"],
                                          errors=dict(gate_errors=d)))
            x = x["errors"][part + "_errors"]
            x = {k: x[k] for k in d}
            cls = type(q.X if part == "qubit" else g.H)
            if d.get("load_file", t["load_file"]) and d.get(
                    "data_path", t["data_path"]) not in ("q.csv", "g.csv"):
                continue
            f(**{k: cls(**v) if isinstance(v, dict) else v for k, v in d.items()})
            t |= x
            agree(conf, e, f"{op}:")
            done += 1
            continue
        labels.add(part)
        if bad(part, d):
            try:
                f(**d)
            except ValueError:
                labels.add(f"refused {part}")
                keep = {k: t[k] for k in t}  # a valid update repairs it
                f(**keep)
                agree(conf, e, f"{op}, repaired:")
                continue
            require(False, "update", op, "is accepted")
        if part == "code":
            d.setdefault("rounds", e["code"]["rounds"])
            if d["name"] in configs.SIZED:
                new = dict(d)
            else:
                new = {k: d[k] for k in ("name", "rounds")}
            f(**d, unknown=3)
            e["code"] = new
        else:
            f(**d)
            t |= d
        done += 1
        agree(conf, e, f"{op}:")
        again = ExperimentConfig.from_dict(conf.as_dict())
        agree(again, e, f"{op}, again:")
    return dict(nt=done > 1, labels=sorted(labels))


# Objects made from configurations.
@st.composite
def buildable(draw, shots=st.integers(1, 100), small=False):
    """Configurations with constant errors whose parts fit together."""
    dec = draw(st.sampled_from(configs.DECODERS))
    weighted = draw(st.booleans()) and dec != "UnionFindNoWeights"
    code = draw(configs.code_dicts(size=3 if small else 4))
    op = draw(st.sampled_from("XZ"))
    if code["name"] == "ToricCode":
        op += draw(st.sampled_from("XZ"))
    rate = st.sampled_from([0.0, 1e-6, 0.01, 0.03, 0.1, 0.2])

    def metadata(x):
        d = dict(distribution="constant", params=[draw(rate)])
        configs.maybe(draw, d, "enabled", st.booleans(), 1)
        return d

    d = dict(code=code, errors={},
             general=dict(logical_op=op, qec_property=["logical_error_rate"],
                          seed=draw(st.integers(0, 2**40))),
             decoder=dict(name=dec, weighted=weighted),
             device=dict(name=draw(st.sampled_from(["stim", "clifford"])),
                         shots=draw(shots)))
    kinds = [k for k in configs.QUBIT[:5] if k != "erasure" or not dec.startswith("Py")]
    if draw(st.integers(0, 5)):
        d["errors"]["qubit_errors"] = {k: metadata(k) for k in draw(st.lists(
            st.sampled_from(kinds), unique=True, max_size=4))}
        configs.maybe(draw, d["errors"]["qubit_errors"], "sample",
                      st.sampled_from([True, True, False]), 1)
    if draw(st.booleans()) and not weighted:
        g = d["errors"]["gate_errors"] = dict(
            sample=draw(st.sampled_from([True, True, False])))
        for k in draw(st.lists(st.sampled_from(configs.GATE[:5]), unique=True,
                               max_size=3)):
            names = [x.upper() for x in configs.PAIRS] if k in tables.TWO else list("XYZ")
            g[k] = dict(distribution=["constant"],
                        induced_errors=[draw(st.sampled_from(names))],
                        params=[[draw(rate)]])
            configs.maybe(draw, g[k], "enabled", st.booleans(), 1)
    return d


@PROP.part("built", buildable(), 100, shards=2, thorough=15)
def built(case):
    """What is built is what the configuration says."""
    prepare()
    e = configs.expected(case)
    conf = ExperimentConfig.from_dict(case)
    code = configs.code(e)
    require(conf.code == code, "the code differs")
    for again in range(2):
        conf.build()
        require(conf.code == code and conf.code.n_rounds == e["code"]["rounds"],
                "the code differs")
        q, g = configs.errors(code, e)
        got = tables.plain(conf.errors.error_data_dict)
        require(tables.same(got, q | g), "errors are", got, "instead of", q | g)
        want = configs.circuit(code, e)
        require(str(conf.circuit) == str(want), "the circuit is", conf.circuit,
                "instead of", want)
        require(type(conf.decoder) is getattr(decoders, e["decoder"]["name"]),
                "decoder is", type(conf.decoder))
        require(type(conf.decoder) is type(conf.decoder_conf.instantiate(
            code, conf.errors)), "type of the decoder")
        backend = getattr(conf.device, "_backend_class", None)
        name = type(backend).__name__ + str(backend)
        require(backend is None or {"stim": "StimSimulator", "clifford": "CircuitSimulator"}[
            e["device"]["name"]] in name, "device is", name)
        agree(conf, e, "built:")
        require(conf.visualizer.code is conf.code.lattice, "lattice that is drawn")
        conf.generate_empty_error_csv("empty.csv")
        lines = open("empty.csv").read().split()
        require(len(lines) == 1 + code.n_data_qubits + code.n_stabgens, "empty table has",
                len(lines), "lines")
        # a circuit written to a file is used as it is
        with open("circ.txt", "w") as f:
            f.write(str(want))
        cc = CircuitConfig(circuit_provided=True, has_errors=True,
                           circuit_path="circ.txt")
        got = cc.instantiate()
        require(isinstance(got, Circuit) and got.gates == Circuit.from_str(
            str(want)).gates, "circuit from file")
        if again:
            break
        # another size, as in the documentation
        if e["code"]["name"] in configs.SIZED:
            conf.code_conf.size = e["code"]["size"] = 3
        conf.code_conf.rounds = e["code"]["rounds"] = 2
        code = configs.code(e)
    for bad in (CircuitConfig(circuit_provided=True, has_errors=False,
                              circuit_path="circ.txt"), CircuitConfig()):
        require(refused(bad.instantiate), "circuit of", bad)
    return dict(nt=bool(q | g), labels=[case["code"]["name"], case["decoder"]["name"]])


NO_SAMPLE = dict(code=dict(name="FiveQubitCode"), errors=dict(gate_errors=dict(
    H=dict(distribution=["constant"], induced_errors=["X"], params=[[0.1]]))))


@PROP.part("gate_default", st.booleans(), 2, thorough=1)
def gate_default(case):
    """Gate errors are sampled by default, according to the documentation."""
    conf = ErrorsConfig.from_dict(copy.deepcopy(NO_SAMPLE["errors"]))
    if conf.gate_errors.sample:
        return dict(nt=case, labels=["sampled"])
    labels = known("P23-gate-sample", "gate errors are not sampled by default")
    return dict(nt=case, labels=labels)
