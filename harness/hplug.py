"""Toy problems and scripted algorithms plugged into the platform under their documented interfaces."""
import sys, types, math
import hlib

hlib.stub_scipy()
from algorithms.base.driver import Driver
from algorithms.base.model import ProgressMessageAdapter


def problem(name, dims, fitnesses, front):
    m = types.ModuleType("problems.%s.problem" % name)
    m.dims, m.fitnesses, m.pareto_front, m.name = dims, fitnesses, front, name
    m.objective_space = None
    sys.modules["problems.%s" % name] = types.ModuleType("problems.%s" % name)
    sys.modules["problems.%s.problem" % name] = m
    return m


def algorithm(name, cls, message_mod=None):
    pk, md = types.ModuleType("algorithms.%s" % name), types.ModuleType("algorithms.%s.%s" % (name, name))
    setattr(md, name, cls)
    sys.modules["algorithms.%s" % name] = pk
    sys.modules["algorithms.%s.%s" % (name, name)] = md
    if message_mod is not None:
        mm = types.ModuleType("algorithms.%s.message" % name)
        for k, v in message_mod.items():
            setattr(mm, k, v)
        sys.modules["algorithms.%s.message" % name] = mm


def toy_f1(x):
    return x[0] + 0.25 * x[1]


def toy_f2(x):
    return (1.0 - x[0]) * (1.0 - x[0]) + 0.5 * x[2]


def toy(name="TOY", n=3):
    return problem(name, [(0.0, 1.0)] * n, [toy_f1, toy_f2], [[0.0, 1.0], [0.5, 0.25], [1.0, 0.0]])


DEFAULT_ALGOS = ["NSGAII", "NSGAIII", "SPEA2", "IBEA", "SMSEMOA", "OMOPSO", "JGBL", "NSLS"]


def toy_f3(x):
    return (x[0] - x[1]) * (x[0] - x[1]) + x[2]


class Population:
    """what a scripted algorithm holds after n steps: a known set of vectors, possibly large, hardly changing, or moved in place"""

    def __init__(self, kind="plain"):
        self.kind = kind
        self.live = [[0.0, k / 16.0, 0.5] for k in range(3)]

    def at(self, n):
        if self.kind == "large":
            return [[(n % 128) / 128.0, k / 128.0, 0.5] for k in range(100)]
        if self.kind == "close":
            return [[0.5 + n * 2.0 ** -45, k * 2.0 ** -44, 0.5 - n * 2.0 ** -46] for k in range(3)]
        if self.kind == "live":
            for i, x in enumerate(self.live):
                x[0], x[2] = (n % 128) / 128.0, ((n * 5 + i) % 128) / 128.0
            return list(self.live)
        return [[(n % 128) / 128.0, k / 16.0, 0.5] for k in range(2)]
