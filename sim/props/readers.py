"""Shared objects that several callers read at once."""
import inspect
import pickle

import zoo

HEAVY = ['Grid', 'Grid', 'Backend', 'RTree', 'RTree', 'geodetic.RTree',
         'Polygon', 'Box',
         'Axis', 'TemporalAxis', 'functions', 'functions', 'functions',
         'functions', 'LineString', 'Crossover',
         'Coordinates', 'Interpolator', 'Binning2D', 'Histogram2D',
         'StreamingHistogram', 'MultiPolygon']


def gen_world(r):
    out = []
    for _ in range(int(r.integers(1, 4))):
        p = zoo.draw(r, HEAVY if r.random() < .8 else None)
        while len(zoo.reads(p)) == 0:
            p = zoo.draw(r, HEAVY)
        ops = []
        k = zoo.KINDS[p['kind']]
        for _ in range(int(r.integers(0, 3))):
            op = k.gen_op(r, p)
            if op:
                ops.append(op)
        p['ops'] = ops
        out.append(p)
    return out


def threaded(fn):
    return inspect.isfunction(fn) and \
        'n' in inspect.signature(fn).parameters


def gen_call(r, world, own=False):
    i = int(r.integers(len(world)))
    names = zoo.reads(world[i])
    heavy = [n for n, f in names if threaded(f)]
    if heavy and not own and r.random() < .6:
        name = str(r.choice(heavy))
        return dict(obj=i, read=name, n=int(r.choice([0, 1, 1, 2, 3])),
                    call=world[i]['kind'] + '.' + name)
    k = int(r.integers(len(names) + 1))
    name = names[k][0] if k < len(names) else 'pickle'
    return dict(obj=i, read=name, call=world[i]['kind'] + '.' + name)


class World:

    def __init__(self, spec):
        self.spec = spec
        self.objects = []
        self.reads = []
        for p in spec:
            o = zoo.make(p)
            for op in p['ops']:
                zoo.KINDS[p['kind']].apply(o, op, p)
            self.objects.append(o)
            self.reads.append(dict(zoo.reads(p)))

    def run(self, c):
        o = self.objects[c['obj']]
        if c['read'] == 'pickle':
            return (pickle.dumps(o, 2 + c['obj'] % 4), )
        fn = self.reads[c['obj']][c['read']]
        v = fn(o, n=c['n']) if 'n' in c else fn(o)
        return (zoo.canon(v), )

    def state(self):
        return [zoo.observe(p, o) for p, o in zip(self.spec, self.objects)]
