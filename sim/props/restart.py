"""P06: objects go through checkpoints, crashes and copies."""
import copy
import pickle

import numpy as np

import ops
import simrt
import zoo
from harness import Prop, attempt

TREES = ('RTree', 'geodetic.RTree')


class Disk:
    """What survives a crash: the bytes last written entirely."""

    def __init__(self):
        self.data = None

    def write(self, data, torn):
        if not torn:
            self.data = bytes(data)


def through(o, how, name=''):
    if how == 'copy':
        return copy.copy(o)
    if how == 'deepcopy':
        return copy.deepcopy(o)
    if how == 'inner':  # the extension object is copied
        c = copy.copy(o)
        if name not in TREES and hasattr(o, '_instance'):
            i = o._instance
            c._instance = i.__copy__() if hasattr(i, '__copy__') else \
                copy.deepcopy(i)
            if type(c._instance) is not type(i):
                raise TypeError(f'the copy is a {type(c._instance)}')
            return c
        return copy.deepcopy(o)
    if how == 'text':  # the exchange formats that lose nothing
        if name == 'GeoHash':
            return type(o).from_string(str(o), round=len(str(o)) % 2 == 0)
        if name in ('LineString', 'Polygon', 'MultiPolygon'):
            return type(o).from_geojson(o.to_geojson()['coordinates'])
        return copy.deepcopy(o)
    if how == 'state':  # the protocol of copyreg, by hand
        return pickle.loads(pickle.dumps(o, 2))
    return pickle.loads(pickle.dumps(o, int(how[1:])))


def flat(v, out):
    """Numbers held by a value."""
    if isinstance(v, (list, tuple)):
        for x in v:
            flat(x, out)
    elif isinstance(v, np.ndarray):
        if v.dtype.names:
            for n in v.dtype.names:
                flat(v[n], out)
        else:
            out.extend(np.asarray(v, 'f8').ravel().tolist())
    elif isinstance(v, (int, float, np.generic)):
        out.append(float(v))
    elif v is not None:
        out.append(v)
    return out


LOOSE = {'len', 'bool', 'bounds', 'query', 'value', 'idw', 'window'}


def loose(p, o):
    """Results of a tree: their last bits depend on its packing."""
    out = []
    for name, fn in zoo.reads(p):
        if name not in LOOSE:
            continue
        r = attempt(fn, o)
        out.append((name, flat(r[1], []) if r[0] == 'ok' else r[1:]))
    return out


def loose_difference(p, a, b):
    tol = 2e-3 if p.get('dtype') == 'float32' else 1e-6
    for (n, x), (_, y) in zip(a, b):
        if type(x) is not type(y) or len(x) != len(y):
            return f'{n}: {str(x)[:100]} instead of {str(y)[:100]}'
        if isinstance(x, tuple):
            if x != y:
                return f'{n}: {x} instead of {y}'
            continue
        for u, v in zip(x, y):
            if isinstance(u, float) and isinstance(v, float):
                if (u != u) != (v != v) or \
                        abs(u - v) > tol * (1 + abs(v) + 0):
                    return f'{n}: {u} instead of {v}'
            elif u != v:
                return f'{n}: {u} instead of {v}'
    return None


def compare(p, a, b):
    """None or how `a` differs from `b`."""
    if p['kind'] in TREES:
        return loose_difference(p, loose(p, a), loose(p, b))
    x, y = zoo.observe(p, a), zoo.observe(p, b)
    return None if x == y else zoo.difference(x, y)


class P06(Prop):
    id = 'P06'

    def generate(self, r, index):
        p = zoo.draw(r)
        k = zoo.KINDS[p['kind']]
        acts = []
        protos = ['p2', 'p3', 'p4', 'p5', 'deepcopy', 'deepcopy', 'inner',
                  'copy', 'text']
        for _ in range(int(r.integers(1, 9))):
            u = r.random()
            if u < .4:
                op = k.gen_op(r, p)
                if op:
                    acts.append(dict(do='op', op=op))
            elif u < .65:
                acts.append(dict(do='restart', how=str(r.choice(protos)),
                                 keep=str(r.choice(['copy', 'copy',
                                                    'original']))))
            elif u < .85:
                acts.append(dict(do='checkpoint', proto=int(r.integers(2, 6)),
                                 torn=bool(r.random() < .2),
                                 alloc=int(r.integers(0, 12))
                                 if r.random() < .25 else -1))
            else:
                acts.append(dict(do='crash'))
        acts.append(dict(do='restart', how=str(r.choice(protos[:7] + ['text'])),
                         keep='copy'))
        return dict(spec=p, acts=acts)

    def shrink(self, sc):
        for i in range(len(sc['acts'])):
            yield dict(sc, acts=sc['acts'][:i] + sc['acts'][i + 1:])

    def execute(self, sc, out):
        p = sc['spec']
        k = zoo.KINDS[p['kind']]
        name = p['kind']
        out.tag('object:' + name)
        live, ref = zoo.make(p), zoo.make(p)
        disk = Disk()
        done = []  # operations since the last durable checkpoint
        every = []
        aside = []  # objects that nobody changes any more
        disk.data = None
        for act in sc['acts']:
            do = act['do']
            out.note(do)
            if do == 'op':
                a = attempt(k.apply, live, act['op'], p)
                b = attempt(k.apply, ref, act['op'], p)
                if a[0] != b[0] or (a[0] == 'err' and a != b):
                    out.fail('operation', f'{name} {act["op"]["op"]}: {a} '
                             f'instead of {b} after a restart')
                    return
                done.append(act['op'])
                every.append(act['op'])
            elif do == 'restart':
                how = act['how']
                out.tag('restart:' + how)
                a = attempt(through, live, how, name)
                if a[0] == 'err':
                    out.fail('not-restorable', f'{name} {how}: {a[1:]}')
                    return
                c = a[1]
                if how == 'copy':
                    # shallow: it may share its content
                    d = compare(p, c, live)
                    if not d and name in TREES and \
                            type(c) is not type(live):
                        d = f'the copy is a {type(c)}'
                    if d:
                        out.fail('restored', f'{name} copy.copy: {d}')
                        return
                else:
                    keep, other = (c, live) if act['keep'] == 'copy' else \
                        (live, c)
                    aside.append((how, other, zoo.observe(p, other)))
                    live = keep
                out.nontrivial = True
            elif do == 'checkpoint':
                before = int(simrt.shared.alloc_fail)
                at = act['alloc']
                with simrt.refusing((at, at + 1) if at >= 0 else (-1, -1)):
                    a = attempt(pickle.dumps, live, act['proto'])
                if int(simrt.shared.alloc_fail) > before:
                    out.tag('fault:memory refused while saving')
                    if a[0] == 'err' and a[1] != 'MemoryError':
                        out.fail('save', f'{name}: {a[1:]} instead of '
                                 'MemoryError')
                elif a[0] == 'err':
                    out.fail('save', f'{name}: {a[1:]}')
                    return
                if a[0] == 'ok':
                    if act['torn']:
                        out.tag('fault:torn checkpoint')
                    else:
                        disk.write(a[1], False)
                        done = []
                        out.tag('checkpoints')
            elif do == 'crash':
                out.tag('fault:crash')
                out.nontrivial = True
                ops.Name.process += 1
                if disk.data is None:
                    live = zoo.make(p)
                    todo = every
                else:
                    a = attempt(pickle.loads, disk.data)
                    if a[0] == 'err':
                        out.fail('not-restorable', f'{name}: {a[1:]}')
                        return
                    live = a[1]
                    todo = done
                for op in todo:
                    a = attempt(k.apply, live, op, p)
                    if a[0] == 'err':
                        b = attempt(k.apply, zoo.make(p), op, p)
                        if b[0] == 'ok':
                            out.fail('operation', f'{name} {op["op"]} after '
                                     f'a crash: {a[1:]}')
                            return
            d = compare(p, live, ref)
            if d:
                out.fail('restored', f'{name} after {do}: {d}')
                return
        for how, o, want in aside:
            got = zoo.observe(p, o)
            if got != want:
                out.fail('shared', f'{name} {how}: the other object changed: '
                         f'{zoo.difference(got, want)}')
                return
        for n, v in zoo.observe(p, live):
            if p['kind'] not in TREES:
                out.note(v)
