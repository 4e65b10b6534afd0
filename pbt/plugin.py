"""Backends of an own "plugin", which plaquette finds by their entry points (P30)."""
import numpy as np


class Failure(Exception):
    """An error of the backend."""


class Recorder:
    """Keeps every call and answers with objects nobody else has."""

    made = []

    def __init__(self, *args, **kwargs):
        self.calls = [("init", args, kwargs)]
        self.answers = []
        self.fail = False
        self._circ = None
        Recorder.made.append(self)

    def _call(self, name, *what):
        self.calls.append((name, *what))
        if self.fail:
            self.fail = False
            self.answers.append(Failure(name))
            raise self.answers[-1]
        self.answers.append((np.arange(len(self.calls)), object()))
        return self.answers[-1]

    def run(self, *args, **kwargs):
        return self._call("run", args, kwargs)

    def reset(self, *args, **kwargs):
        return self._call("reset", args, kwargs)

    def get_sample(self, *args, **kwargs):
        return self._call("get_sample", args, kwargs)

    def __iter__(self):
        self._call("iter")
        return iter((self,))

    def __next__(self):
        return self._call("next")

    @property
    def state(self):
        return self._call("state")

    @property
    def n_qubits(self):
        return self._call("n_qubits")

    @property
    def is_completed(self):
        self._call("is_completed")
        self.answers[-1] = [len(self.calls) % 3 == 0, False][: len(self.calls) % 2 + 1]
        return self.answers[-1]

    @property
    def circ(self):
        return self._call("circ")

    @circ.setter
    def circ(self, value):
        self._call("set", value)


class Remote:
    """Executes circuits with the Clifford simulator, as a remote machine would."""

    def __init__(self, url="", *, delay=0):
        self.url, self.delay, self.jobs, self.circ = url, delay, [], None

    def run(self, circuit, *, shots=1):
        from plaquette.device._circuitsim import CircuitSimulator

        self.circ = getattr(circuit, "circ", circuit)
        self.jobs = []
        for _ in range(shots):
            sim = CircuitSimulator(self.circ)
            self.jobs.append(sim.get_sample())
        return len(self.jobs)

    def get_sample(self):
        return (np.array([j[0] for j in self.jobs]), np.array([j[1] for j in self.jobs]))

    @property
    def is_completed(self):
        return [True] * len(self.jobs)
