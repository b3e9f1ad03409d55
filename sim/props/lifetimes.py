"""P15: what was obtained from an object outlives it."""
import copy
import gc

import numpy as np

import simrt
import zoo
from harness import Prop, attempt
from .faults import BAD
from .parallel import report_races
from .readers import threaded

ITERABLE = ('Axis', 'AxisInt64', 'TemporalAxis', 'LineString', 'MultiPolygon')
COPIES = ('copy', 'deepcopy')


def derivations(p):
    names = [n for n, f in zoo.reads(p) if not threaded(f)]
    out = [('read', n) for n in names]
    out += [('copy', n) for n in COPIES]
    if p['kind'] in ITERABLE:
        out += [('iter', 'iter')] * 4
    # results that may be tied to their owner
    for n in ('array', 'x', 'y', 'z', 'u', 'outer', 'inners', 'items',
              'min_corner', 'max_corner', 'h1', 'h2', 'spheroid', 'periods',
              'values', 'slice', 'as_polygon', 'envelope'):
        if n in names:
            out += [('read', n)] * 4
    return out


def get(p, o, what, name):
    if what == 'read':
        return dict(zoo.reads(p))[name](o)
    if what == 'iter':
        return iter(o)
    return copy.copy(o) if name == 'copy' else copy.deepcopy(o)


def look(p, what, v):
    """Bytes that identify what was obtained."""
    if what == 'copy':
        return tuple(zoo.observe(p, v))
    a = attempt(zoo.canon, v)
    return a[1] if a[0] == 'ok' else repr(a[1:]).encode()


CHANGES = {
    'Axis': lambda v, r: v.flip(inplace=True),
    'AxisInt64': lambda v, r: v.flip(inplace=True),
    'TemporalAxis': lambda v, r: v.flip(inplace=True),
    'LineString': lambda v, r: [v.append(zoo.P().geodetic.Point(*x))
                                for x in r.uniform(-50, 50, (9, 2))],
    'Point': lambda v, r: (setattr(v, 'lon', float(r.uniform(-80, 80))),
                           setattr(v, 'lat', float(r.uniform(-80, 80)))),
    'Box': lambda v, r: setattr(v, 'max_corner', zoo.P().geodetic.Point(
        *r.uniform(30, 50, 2))),
    'MultiPolygon': lambda v, r: v.append(zoo.KINDS['Polygon'].make(
        dict(seed=int(r.integers(1 << 20)), holes=True))),
    'ndarray': lambda v, r: v.fill(0),
}


def change(v, r):
    """Changes a thing obtained from an object, if it can be."""
    if isinstance(v, (list, tuple)) and v:
        v = v[int(r.integers(0, len(v)))]
    fn = CHANGES.get(type(v).__name__)
    if fn is None:
        return False
    try:
        fn(v, r)
    except (ValueError, RuntimeError, TypeError, OverflowError):
        pass
    return True


class Slot:

    def __init__(self, owner, act, v):
        self.owner, self.v = owner, v
        self.what, self.name = act['what'], act['name']
        self.allowed = None  # values it may have
        self.loose = False  # its value is not specified any more
        self.items = set()


class P15(Prop):
    id = 'P15'

    def generate(self, r, index):
        names = list(zoo.KINDS)
        some = ['MultiPolygon', 'LineString', 'Polygon', 'Grid', 'Box',
                'Axis', 'Crossover', 'PeriodList', 'core.PeriodList',
                'Binning2D', 'Histogram2D', 'Coordinates', 'TemporalAxis']
        world = [zoo.draw(r, some if r.random() < .7 else names)
                 for _ in range(int(r.integers(1, 3)))]
        acts = []
        slots = 0
        for _ in range(int(r.integers(3, 16))):
            u = r.random()
            i = int(r.integers(0, len(world)))
            p = world[i]
            if u < .4 or not slots:
                d = derivations(p)
                what, name = d[int(r.integers(0, len(d)))]
                acts.append(dict(do='get', i=i, what=what, name=name))
                slots += 1
            elif u < .6:
                op = zoo.KINDS[p['kind']].gen_op(r, p)
                if op:
                    acts.append(dict(do='op', i=i, op=op))
            elif u < .72:
                acts.append(dict(do='destroy', i=i))
            elif u < .78:
                acts.append(dict(do='drop', s=int(r.integers(0, slots))))
            elif u < .9:
                acts.append(dict(do='next', s=int(r.integers(0, slots)),
                                 n=int(r.integers(1, 6))))
            elif u < .95:
                acts.append(dict(do='change', s=int(r.integers(0, slots)),
                                 seed=int(r.integers(1 << 30))))
            else:
                acts.append(dict(do='churn'))
        return dict(world=world, acts=acts)

    def shrink(self, sc):
        # the slots are numbered by the 'get' actions: replace, do not remove
        for i, a in enumerate(sc['acts']):
            if a['do'] != 'churn' and a['do'] != 'get':
                yield dict(sc, acts=sc['acts'][:i] + sc['acts'][i + 1:])
        for i, a in enumerate(sc['acts']):
            if a['do'] == 'get' and a['name'] != 'none':
                acts = list(sc['acts'])
                acts[i] = dict(a, name='none')
                yield dict(sc, acts=acts)

    def execute(self, sc, out):
        world = sc['world']
        names = [p['kind'] for p in world]
        calm = simrt.make_config(dict(mode=3, cores=2, seed=0), races=False)
        with simrt.session(calm):
            objs = [zoo.make(p) for p in world]
        slots = []

        def step(what, fn, gcs=False):
            with simrt.session(calm):
                a = attempt(fn)
                if gcs:
                    gc.collect()
            report_races(out, what, BAD)
            return a

        for act in sc['acts']:
            do = act['do']
            out.note(do)
            if do == 'get':
                i = act['i']
                if objs[i] is None or act['name'] == 'none':
                    slots.append(None)
                    continue
                what = f'{names[i]} {act["what"]} {act["name"]}'
                a = step(what, lambda: get(world[i], objs[i], act['what'],
                                           act['name']))
                if a[0] == 'err':
                    slots.append(None)
                    continue
                s = Slot(i, act, a[1])
                a = None
                self.learn(world[i], objs[i], s)
                slots.append(s)
                out.tag('obtained')
            elif do == 'op':
                i = act['i']
                if objs[i] is None:
                    continue
                k = zoo.KINDS[names[i]]
                step(f'{names[i]}.{act["op"]["op"]} while '
                     f'{self.held(slots, i)} live', lambda: k.apply(
                         objs[i], act['op'], world[i]))
                out.tag('owner changed')
                for s in slots:
                    if s and s.owner == i:
                        self.learn(world[i], objs[i], s)
            elif do == 'destroy':
                i = act['i']
                if objs[i] is None:
                    continue
                out.tag('fault:owner destroyed')
                out.nontrivial = True

                def destroy():
                    objs[i] = None

                step(f'{names[i]} destroyed', destroy, True)
            elif do == 'drop':
                s = slots[act['s']] if act['s'] < len(slots) else None
                if s:
                    def drop():
                        s.v = None

                    step(f'{names[s.owner]} {s.name} destroyed', drop, True)
                    slots[act['s']] = None
            elif do == 'next':
                s = slots[act['s']] if act['s'] < len(slots) else None
                if s and s.what == 'iter':
                    self.advance(step, names, s, act['n'], out)
            elif do == 'change':
                s = slots[act['s']] if act['s'] < len(slots) else None
                if s and s.what != 'iter':
                    r = np.random.default_rng(act['seed'])
                    step(f'{names[s.owner]} {s.name} changed',
                         lambda: change(s.v, r))
                    # whether the owner and its other parts change as well
                    # is not specified
                    out.tag('part changed')
                    for t in slots:
                        if t and t.owner == s.owner:
                            t.loose = True
                    if objs[s.owner] is not None:
                        step(f'{names[s.owner]} after a change of its '
                             f'{s.name}', lambda: zoo.observe(
                                 world[s.owner], objs[s.owner]))
            else:
                def churn():
                    keep = [np.full(n, 0x41, 'u1') for n in
                            list(range(8, 600, 8)) * 2]
                    keep += [zoo.make(p) for p in world]
                    del keep

                step('churn', churn)
            if out.viol:
                return
            for s in slots:
                self.check(step, world, names, s, do, out)
                if out.viol:
                    return
        for s in slots:
            if s and s.what == 'iter':
                self.advance(step, names, s, 1000, out)
            if out.viol:
                return

        def end():
            objs.clear()
            slots.clear()

        step('end', end, True)

    def held(self, slots, i):
        return [s.name for s in slots if s and s.owner == i]

    def learn(self, p, o, s):
        """The values the thing may have from now on."""
        if s.what == 'iter':
            for x in attempt(lambda: list(o))[1]:
                s.items.add(look(p, 'read', x))
            return
        a = attempt(get, p, o, s.what, s.name)
        if a[0] == 'err':
            s.loose = True
            return
        if s.allowed is None:
            s.allowed = set()
        s.allowed.add(look(p, s.what, a[1]))

    def check(self, step, world, names, s, do, out):
        if s is None or s.what == 'iter':
            return
        p = world[s.owner]
        what = f'{names[s.owner]} {s.name} after {do}'
        a = step(what, lambda: look(p, s.what, s.v))
        if out.viol or s.loose:
            return
        if a[1] not in s.allowed:
            old = sorted(map(str, s.allowed))[:2]
            out.fail('dangling', f'{what}: {str(a[1])[:200]} instead of '
                     f'{str(old)[:250]}')

    def advance(self, step, names, s, n, out):
        for _ in range(n):
            a = step(f'{names[s.owner]} iteration', lambda: next(s.v))
            if a[0] == 'err' or out.viol:
                return
            v = step(f'{names[s.owner]} iteration', lambda: look(
                None, 'read', a[1]))
            if out.viol:
                return
            if not s.loose and s.items and v[1] not in s.items:
                out.fail('dangling', f'{names[s.owner]} iteration: '
                         f'{v[1][:150]} was never an item')
                return
