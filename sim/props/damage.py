"""P07: saved states that were damaged on their way."""
import numpy as np

import simrt
import zoo
from harness import Prop, attempt, rng

from .faults import BAD
from .parallel import report_races
from .readers import threaded

INTS = [0, 1, -1, 2, 3, 1 << 16, (1 << 31) - 1, 1 << 31, 1 << 40, 1 << 62,
        -(1 << 63)]
FLOATS = [float('nan'), float('inf'), -float('inf'), 0., -1., 1e308, 1e-308,
          -360., 1e18]


ROOM = 32 << 20


def saved(o):
    """(class, state) of an object that can be saved, None for a plain
    value."""
    if type(o).__module__.split('.')[0] not in ('pyinterp', 'core'):
        return None
    try:
        red = o.__reduce_ex__(2)
    except Exception:  # noqa: BLE001
        return None
    if not isinstance(red, tuple) or len(red) < 2:
        return None
    return red


class Node:
    """A state, as a tree that can be changed."""

    def __init__(self, v):
        self.v, self.red, self.items = v, None, None
        red = saved(v)
        if red is not None:
            self.red = red
            parts = [red[1]] if len(red) == 2 else [red[1], red[2]]
            self.items = [Node(x) for x in parts]
        elif isinstance(v, (tuple, list)) and not hasattr(v, '_fields'):
            self.items = [Node(x) for x in v]
        elif type(v) is dict:
            self.items = [Node(x) for x in v.values()]

    def all(self, out):
        out.append(self)
        for n in self.items or ():
            n.all(out)
        return out

    def take(self, o):
        a, b = self.__dict__, o.__dict__
        self.__dict__, o.__dict__ = b, a

    def build(self):
        if self.items is None:
            return self.v
        parts = [n.build() for n in self.items]
        if self.red is not None:
            o = self.red[0](*parts[0])
            if len(parts) > 1 and parts[1] is not None:
                if hasattr(o, '__setstate__'):
                    o.__setstate__(parts[1])
                else:
                    set_plain(o, parts[1])
            return o
        if isinstance(self.v, dict):
            return dict(zip(self.v, parts))
        return type(self.v)(parts)


def set_plain(o, state):
    if isinstance(state, tuple) and len(state) == 2:
        for part in state:
            if part:
                for k, v in part.items():
                    setattr(o, k, v)
    elif isinstance(state, dict):
        o.__dict__.update(state)
    else:
        raise TypeError('state')


def damage_bytes(v, r):
    b = bytearray(v)
    k = int(r.integers(0, 6))
    if k == 0 or not b:
        return bytes(b[:int(r.integers(0, len(b) + 1))])
    if k == 1:
        return bytes(b) + bytes(r.integers(0, 256, int(r.integers(1, 40)),
                                           dtype='u1'))
    if k == 2:
        i = int(r.integers(0, len(b)))
        b[i] ^= 1 << int(r.integers(0, 8))
        return bytes(b)
    if k == 3:
        i = int(r.integers(0, len(b)))
        j = min(len(b), i + int(r.integers(1, 20)))
        b[i:j] = bytes(j - i)
        return bytes(b)
    at = int(r.integers(0, max(len(b) // 8, 1))) * 8
    if k == 4:
        x = np.array([INTS[int(r.integers(0, len(INTS)))]], 'i8').tobytes()
    else:
        x = np.array([FLOATS[int(r.integers(0, len(FLOATS)))]]).tobytes()
    b[at:at + 8] = x
    return bytes(b[:len(v)])


def reshaped(v, r):
    """The same number of items, in another shape."""
    k = int(r.integers(0, 4))
    if k == 0 or v.size < 2:
        return v.T
    if k == 1:
        return v.reshape(1, -1)
    if k == 2:
        return v.reshape(-1, 1)
    d = [d for d in range(1, v.size + 1) if v.size % d == 0]
    return v.reshape(int(r.choice(d)), -1)


def damage_array(v, r):
    k = int(r.integers(0, 9))
    if v.ndim > 1 and r.random() < .3:
        return reshaped(v, r)
    if k == 0:
        return v.ravel()[:int(r.integers(0, v.size + 1))]
    if k == 1:
        return v[None]
    if k == 2:
        return v.reshape(-1)
    if k == 3:
        t = str(r.choice(['f4', 'f8', 'i8', 'i4', 'u1', 'O', 'c16']))
        try:
            return v.astype(t)
        except (TypeError, ValueError):
            return np.zeros(v.shape, t)
    if k == 4:
        return v[:v.shape[0] // 2] if v.ndim else v
    if k == 5:
        return np.concatenate([v, v]) if v.ndim else v[None]
    if k == 6:
        return v.T
    if k == 7:
        return np.zeros((0,) * max(v.ndim, 1), v.dtype)
    if v.size and v.dtype.kind in 'fiu':
        v = v.copy()
        x = FLOATS if v.dtype.kind == 'f' else INTS
        with np.errstate(all='ignore'):
            v.flat[int(r.integers(0, v.size))] = np.array(
                x[int(r.integers(0, len(x)))]).astype(v.dtype)
    elif v.size and v.dtype.kind != 'O':
        b = np.frombuffer(damage_bytes(v.tobytes(), r), 'u1')
        w = np.zeros(v.nbytes, 'u1')
        w[:b.size] = b[:w.size]
        v = w.view(v.dtype).reshape(v.shape)
    return v


def weight(node):
    """How often a node is hit: mostly the data."""
    if node.red is not None:
        return .5
    if node.items is not None:
        return 2
    if isinstance(node.v, (bytes, np.ndarray)):
        return 8 if getattr(node.v, 'ndim', 1) < 2 else 16
    if isinstance(node.v, (bool, int, float)):
        return 4
    return .3


def damage(node, r):
    """Damages a node in place; returns how."""
    v = node.v
    if node.red is not None and r.random() < .8:
        v = node.items[-1]
        if v.items is not None:
            node = v
            v = node.v
    if node.items is not None and node.red is None and \
            not isinstance(node.v, dict):
        k = int(r.integers(0, 6))
        n = len(node.items)
        if k == 0 and n:
            del node.items[int(r.integers(0, n))]
            return 'item lost'
        if k == 1:
            node.items.append(Node(node.items[0].v if n else 0))
            return 'item added'
        if k == 2 and n > 1:
            i, j = (int(x) for x in r.permutation(n)[:2])
            node.items[i], node.items[j] = node.items[j], node.items[i]
            return 'items exchanged'
        if k == 3:
            node.items = node.items[:int(r.integers(0, n + 1))]
            return 'items cut'
        if k == 4 and n:
            node.items[int(r.integers(0, n))] = Node(other(r))
            return 'item replaced'
        node.items = []
        return 'emptied'
    node.items = node.red = None
    if isinstance(v, Node):
        v = v.v
    if isinstance(v, (bool, int, float)) and r.random() < .2:
        node.v = other(r)
        return 'number replaced'
    if isinstance(v, bool):
        node.v = not v
    elif isinstance(v, int):
        node.v = v + int(r.integers(-3, 4)) if r.random() < .3 else \
            INTS[int(r.integers(0, len(INTS)))]
    elif isinstance(v, float):
        node.v = FLOATS[int(r.integers(0, len(FLOATS)))]
    elif isinstance(v, bytes):
        node.v = damage_bytes(v, r)
    elif isinstance(v, np.ndarray):
        node.v = damage_array(v, r)
    else:
        node.v = other(r)
    return f'{type(v).__name__} damaged'


def other(r):
    return [None, 0, -1, 1 << 40, 2.5, float('nan'), 'x', b'', b'xyz',
            (), (1, 2), [], np.zeros(3), np.zeros((2, 2)),
            np.zeros((0, 3)), {}][int(r.integers(0, 16))]


def exchange(tree, r):
    """Exchanges two neighbours of the same type."""
    groups = []
    for n in tree.all([]):
        if n.red is None and n.items:
            kinds = {}
            for x in n.items:
                kinds.setdefault(type(x.v), []).append(x)
            for g in kinds.values():
                if len(g) > 1:
                    groups += [g] * (1 if g[0].items is None else 6)
    if not groups:
        return None
    g = groups[int(r.integers(0, len(groups)))]
    a, b = (g[int(i)] for i in r.permutation(len(g))[:2])
    a.take(b)
    return 'twins exchanged'


def graft(tree, p, r):
    """A part is the one of another object of the same kind."""
    other = Node(zoo.make(zoo.draw(r, [p['kind']])))
    pairs = [(tree, other)]
    for a, b in pairs:
        pairs += list(zip(a.items or (), b.items or ()))
    a, b = pairs[int(r.integers(1, len(pairs)))] if len(pairs) > 1 else \
        pairs[0]
    a.take(b)
    return 'part of another state'


def hit(tree, p, seed):
    """Damages the state; returns how."""
    r = rng('damage', seed)
    u = r.random()
    how = None
    if u < .3:
        how = exchange(tree, r)
    elif u < .42:
        how = graft(tree, p, r)
    if how is None:
        nodes = tree.all([])
        w = np.array([weight(n) for n in nodes], 'f8')
        how = damage(nodes[int(r.choice(len(nodes), p=w / w.sum()))], r)
    return how


class P07(Prop):
    id = 'P07'

    def generate(self, r, index):
        p = zoo.draw(r)
        k = zoo.KINDS[p['kind']]
        ops = [op for op in (k.gen_op(r, p)
                             for _ in range(int(r.integers(0, 3)))) if op]
        after = [op for op in (k.gen_op(r, p)
                               for _ in range(int(r.integers(0, 5)))) if op]
        return dict(spec=p, ops=ops, after=after,
                    hits=[int(x) for x in r.integers(
                        0, 1 << 30, int(r.choice([1, 1, 1, 2, 3])))])

    def shrink(self, sc):
        for k in ('ops', 'after', 'hits'):
            for i in range(len(sc[k])):
                if k != 'hits' or len(sc[k]) > 1:
                    yield dict(sc, **{k: sc[k][:i] + sc[k][i + 1:]})

    def execute(self, sc, out):
        # a state that describes an enormous object finds no memory
        simrt.lib.sim_max_alloc(ROOM)
        p = sc['spec']
        k = zoo.KINDS[p['kind']]
        name = p['kind']
        calm = simrt.make_config(dict(mode=3, cores=2, seed=0), races=False)
        o = zoo.make(p)
        for op in sc['ops']:
            attempt(k.apply, o, op, p)
        tree = Node(o)
        if tree.red is None:
            return
        how = []
        for seed in sc['hits']:
            how.append(hit(tree, p, seed))
            out.tag('fault:' + how[-1])
        out.nontrivial = True

        def step(what, fn):
            with simrt.session(calm):
                a = attempt(fn)
            report_races(out, f'{what} ({", ".join(how)})', BAD)
            if a[0] == 'err' and (a[1] == 'SystemError' or
                                  'nknown exception' in a[2]):
                out.fail('error', f'{what}: {a[1:]}')
            return a

        a = step(f'{name} restored', tree.build)
        out.note((name, how, a[0]))
        if out.viol:
            return
        if a[0] == 'err':
            out.tag('refused')
            out.note(a[1:])
            return
        out.tag('accepted')
        x = a[1]
        if type(x) is not type(o):
            return
        for n, fn in zoo.reads(p):
            b = step(f'{name}.{n}', lambda: fn(x, n=2) if threaded(fn)
                     else fn(x))
            if b[0] == 'ok':
                attempt(zoo.canon, b[1])
            if out.viol:
                return
        for op in sc['after']:
            step(f'{name} {op["op"]}', lambda: k.apply(x, op, p))
            if out.viol:
                return
        del x, a
        step(f'{name} destroyed', lambda: None)
