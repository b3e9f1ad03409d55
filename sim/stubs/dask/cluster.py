"""Simulated cluster.  The scheduler decides, from one seeded generator, which
worker runs which task and when, which results are copied through the
(pickling) network or spilled to disk, which workers die, and which tasks are
therefore run again."""
import copy
import pickle

import numpy


class Data:
    """A block already in memory."""

    def __init__(self, value):
        self.value = value


class Task:

    def __init__(self, func, args, kwargs=None):
        self.func = func
        self.args = args
        self.kwargs = kwargs or {}


class Reduction:
    """Sum of the elements of blocks of objects."""

    def __init__(self, parts):
        self.parts = list(parts)


def _sum(*parts):
    """What dask does: concatenate the blocks, then numpy.sum."""
    return numpy.sum(numpy.concatenate([numpy.atleast_1d(p) for p in parts]))


class Plain:
    """Runs everything once, in order."""

    def value(self, node):
        if isinstance(node, Data):
            return node.value
        if isinstance(node, Reduction):
            return _sum(*[self.value(p) for p in node.parts])
        if isinstance(node, Task):
            return node.func(*[self.value(a) if isinstance(
                a, (Data, Task, Reduction)) else a for a in node.args],
                             **node.kwargs)
        return node

    def run(self, nodes):
        return [self.value(n) for n in nodes]


class Lost(Exception):
    """The worker died."""


class Cluster(Plain):
    """rng: numpy generator; p: probabilities of the faults."""

    def __init__(self, rng, p, split_every=0):
        self.rng = rng
        self.p = p
        self.split = split_every
        self.stats = {}

    def count(self, name):
        self.stats[name] = self.stats.get(name, 0) + 1

    def chance(self, name):
        if self.rng.random() < self.p.get(name, 0):
            self.count(name)
            return True
        return False

    def move(self, value):
        """Another worker needs the value."""
        if self.chance('transfer'):
            return pickle.loads(pickle.dumps(value, protocol=int(
                self.rng.integers(2, 6))))
        if self.chance('spill'):
            return pickle.loads(pickle.dumps(value))
        return value

    def execute(self, func, args, kwargs):
        """Runs a task on a worker that may die, be duplicated, ..."""
        while True:
            args2 = [self.move(a) for a in args]
            if self.chance('crash-before'):
                continue
            result = func(*args2, **kwargs)
            if self.chance('crash-after'):
                # the result is lost, the inputs are still on other workers
                continue
            if self.chance('duplicate'):
                # speculative execution: the same inputs, the first is kept
                other = func(*args2, **kwargs)
                if self.rng.random() < .5:
                    result = other
            return self.move(result)

    def leaves(self, node):
        if isinstance(node, (Data, Task, Reduction)):
            return self.value(node)
        return node

    def value(self, node):
        if isinstance(node, Data):
            return node.value
        if isinstance(node, Task):
            return self.execute(node.func,
                                [self.leaves(a) for a in node.args],
                                node.kwargs)
        # tree reduction
        order = self.rng.permutation(len(node.parts))
        values = [None] * len(node.parts)
        for i in order:
            values[i] = self.value(node.parts[i])
        # chunk.sum of each block
        values = [self.execute(_sum, [v], {}) for v in values]
        width = self.split or int(self.rng.integers(2, 9))
        while len(values) > 1:
            values = [self.execute(_sum, values[i:i + width], {})
                      for i in range(0, len(values), width)]
        return values[0]


_current = Plain()


def current():
    return _current


class using:

    def __init__(self, cluster):
        self.cluster = cluster

    def __enter__(self):
        global _current
        self.before = _current
        _current = self.cluster
        return self.cluster

    def __exit__(self, *exc):
        global _current
        _current = self.before
