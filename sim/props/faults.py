"""P11: memory refused anywhere.  P14: nothing outlives its objects."""
import copy
import gc
import pickle
import sys

import numpy as np

import bad
import ops
import simrt
import zoo
from harness import Prop, attempt, rng, sched

from .isolation import BATCHES, corrupt
from .parallel import gen_op, inputs_state, report_races, same, shrink_op
from .readers import threaded

BAD = ('data-race', 'out-of-bounds', 'use-after-free', 'wild-access',
       'bad-free')
# Operations that document no guarantee when they fail midway: the object may
# hold a part of the new samples.
PARTIAL = {('RTree', 'insert'), ('geodetic.RTree', 'insert'),
           ('Binning2D', 'push'), ('MultiPolygon', 'iadd')}


def blocks():
    gc.collect()
    return int(simrt.lib.sim_live_blocks())


def gen_target(r, p):
    k = zoo.KINDS[p['kind']]
    u = r.random()
    if u < .2:
        return dict(do='make')
    if u < .45 and k.mutable:
        op = k.gen_op(r, p)
        if op:
            return dict(do='op', op=op)
    if u < .62:
        return dict(do=str(r.choice(['pickle', 'deepcopy', 'loads',
                                     'loads'])))
    names = [n for n, _ in zoo.reads(p)]
    if not names:
        return dict(do='make')
    return dict(do='read', read=str(r.choice(names)),
                n=int(r.choice([1, 1, 2, 3])))


def refused_call(r, p):
    names = [n for n, _ in bad.calls(p)]
    if not names or r.random() < .3:
        return dict(do='maker', seed=int(r.integers(1 << 30)),
                    name=str(r.choice([n for n, _ in bad.MAKERS])))
    return dict(do='bad', seed=int(r.integers(1 << 30)),
                name=str(r.choice(names)))


def gen_history(r, p, limit=3):
    k = zoo.KINDS[p['kind']]
    out = []
    for _ in range(int(r.integers(0, limit))):
        op = k.gen_op(r, p)
        if op:
            out.append(op)
    return out


class Subject:
    """An object, the operations it went through and a call on it."""

    def __init__(self, p, pre, t):
        self.p, self.pre, self.t = p, pre, t
        self.kind = zoo.KINDS[p['kind']]
        self.name = p['kind'] + '.' + (
            t['op']['op'] if t['do'] == 'op' else
            t.get('read', t['do']))
        self.data = None
        self.o = None
        self.fresh()
        if t['do'] == 'loads':
            self.data = pickle.dumps(self.o, 2)
        if t['do'] == 'read':
            self.fn = dict(zoo.reads(p))[t['read']]

    def fresh(self):
        self.o = zoo.make(self.p)
        for op in self.pre:
            attempt(self.kind.apply, self.o, op, self.p)

    def call(self):
        t = self.t
        do = t['do']
        if do == 'make':
            return zoo.make(self.p)
        if do == 'op':
            self.kind.apply(self.o, t['op'], self.p)
            return None
        if do == 'pickle':
            return pickle.dumps(self.o, 2)
        if do == 'deepcopy':
            return copy.deepcopy(self.o)
        if do == 'loads':
            return pickle.loads(self.data)
        if do == 'damaged':
            from . import damage
            simrt.lib.sim_max_alloc(damage.ROOM)
            tree = damage.Node(self.o)
            damage.hit(tree, self.p, t['seed'])
            return tree.build()
        if do in ('bad', 'maker'):
            r = rng('bad', t['seed'])
            try:
                if do == 'bad':
                    return dict(bad.calls(self.p))[t['name']](self.o, r)
                return dict(bad.MAKERS)[t['name']](r)
            finally:
                bad.KEPT.clear()
        if threaded(self.fn):
            return self.fn(self.o, n=t['n'])
        return self.fn(self.o)

    def canon(self, v):
        """What a caller sees of the result."""
        do = self.t['do']
        if do in ('make', 'deepcopy', 'loads'):
            return zoo.observe(self.p, v)
        if do == 'op':
            return None
        return zoo.canon(v)


def memory_error(e):
    return e[1] == 'MemoryError' or 'alloc' in e[2].lower() or \
        'memory' in e[2].lower()


def plain(fn, *args):
    """Without fault nor preemption."""
    with simrt.serial(2):
        return attempt(fn, *args)


class P11(Prop):
    """Memory is refused to any call, at any point."""
    id = 'P11'
    races = True

    def concerns(self, cls):
        return True

    def generate(self, r, index):
        sc = dict(sched=sched(r), at=float(r.random()),
                  count=int(r.choice([1, 1, 1, 2, 5, 1 << 40])))
        if r.random() < .3:
            sc.update(op=gen_op(r), threads=int(r.integers(1, 5)))
        else:
            p = zoo.draw(r)
            sc.update(spec=p, pre=gen_history(r, p), target=gen_target(r, p))
        return sc

    def shrink(self, sc):
        if sc['count'] > 1:
            yield dict(sc, count=1)
        if 'op' in sc:
            yield from shrink_op(sc)
            return
        for i in range(len(sc['pre'])):
            yield dict(sc, pre=sc['pre'][:i] + sc['pre'][i + 1:])

    def run(self, sc, fn, allocs):
        with simrt.refusing(allocs, sc['sched']):
            return attempt(fn)

    def execute(self, sc, out):
        if 'op' in sc:
            self.pooled(sc, out)
        else:
            self.single(sc, out)

    def allocations(self, sc, fn):
        flat = dict(sc, sched=dict(sc['sched'], mode=3))
        self.run(flat, fn, (-1, -1))
        return int(simrt.shared.allocs)

    def faulty(self, sc, fn, n):
        at = int(sc['at'] * n)
        before = int(simrt.shared.alloc_fail)
        a = self.run(sc, fn, (at, at + sc['count']))
        return a, int(simrt.shared.alloc_fail) - before, at

    def pooled(self, sc, out):
        c = ops.make(sc['op'])
        name = sc['op']['op']
        out.tag('op:' + name)
        inputs = inputs_state(c)

        def fn():
            return c.call(sc['threads'])

        b = plain(fn)
        n = self.allocations(sc, fn)
        if n == 0:
            out.tag('no allocation')
            return
        live = blocks()
        a, fired, at = self.faulty(sc, fn, n)
        self.judge(sc, out, name, a, fired, at, lambda: same(a, b),
                   b[0] == 'err')
        if inputs_state(c) != inputs:
            out.fail('input-modified', f'{name} modified its input after '
                     'memory was refused')
        a = None
        left = blocks() - live
        if left > 0:
            out.fail('leak', f'{name}: {left} blocks are lost when allocation '
                     f'{at} is refused')
        d = plain(fn)
        if not same(d, b) and (d[0] == 'ok' or b[0] == 'ok'):
            out.fail('after-failure', f'{name} after memory was refused: '
                     f'{str(d)[:200]} instead of {str(b)[:200]}')

    def judge(self, sc, out, name, a, fired, at, right, fails):
        if simrt.shared.status == 3:
            out.fail('leaked-thread', f'{name}: a thread outlives the call')
        report_races(out, name, BAD)
        if not fired:
            out.tag('fault not reached')
            return
        out.tag('fault:memory refused', fired)
        out.nontrivial = True
        out.note((name, at, sc['count'], a[0]))
        if a[0] == 'ok':
            out.tag('completed')
            if not right():
                out.fail('silent', f'{name}: allocation {at} was refused and '
                         'the result is wrong, without an error')
        else:
            out.tag('reported')
            if not memory_error(a) and not fails:
                out.fail('error-kind', f'{name}: allocation {at} refused: '
                         f'{a[1]}: {a[2][:120]}')

    def single(self, sc, out):
        s = Subject(sc['spec'], sc['pre'], sc['target'])
        p, name = s.p, s.name
        key = (p['kind'], sc['target'].get('op', {}).get('op'))
        out.tag('call:' + p['kind'] + ' ' + sc['target']['do'])
        state = zoo.observe(p, s.o)
        b = plain(s.call)
        if b[0] == 'ok':
            b = ('ok', s.canon(b[1]))
        after = zoo.observe(p, s.o)
        if sc['target']['do'] == 'op':
            s.fresh()
        elif after != state:
            out.fail('changed', f'{name} changed the object: '
                     f'{zoo.difference(after, state)}')
            return
        n = self.allocations(sc, s.call)
        if sc['target']['do'] == 'op':
            s.fresh()
        if n == 0:
            out.tag('no allocation')
            return
        live = blocks()
        a, fired, at = self.faulty(sc, s.call, n)
        got = s.canon(a[1]) if a[0] == 'ok' else None
        if b[0] == 'err' and a[0] == 'err' and a == b:
            out.tag('rejected before')
        else:
            self.judge(sc, out, name, a, fired, at,
                       lambda: b[0] == 'ok' and got == b[1],
                       b[0] == 'err')
        a = None
        now = zoo.observe(p, s.o)
        if key in PARTIAL:
            pass
        elif sc['target']['do'] != 'op':
            if now != state:
                out.fail('changed', f'{name}: allocation {at} was refused and '
                         f'the object changed: '
                         f'{zoo.difference(now, state)}')
        elif fired and now != state and now != after:
            out.fail('half-done', f'{name}: allocation {at} was refused and '
                     f'the object is neither as before nor as after: '
                     f'{zoo.difference(now, state)}')
        if key[1] is None:
            left = blocks() - live
            if left > 0:
                out.fail('leak', f'{name}: {left} blocks are lost when '
                         f'allocation {at} is refused')
            d = plain(s.call)
            if d[0] == 'ok':
                d = ('ok', s.canon(d[1]))
            if d != b:
                out.fail('after-failure', f'{name} after memory was refused: '
                         f'{str(d)[:200]} instead of {str(b)[:200]}')
            return
        # the object is still usable, and can be destroyed
        if key not in PARTIAL:
            if now == state:
                plain(s.call)
                if zoo.observe(p, s.o) != after:
                    out.fail('after-failure', f'{name} again after memory was '
                             'refused: '
                             f'{zoo.difference(zoo.observe(p, s.o), after)}')
        else:
            tree = key[1] == 'insert' and fired
            if tree:
                # whatever is left of the index can be read, and it grows
                n, was = sc['target']['op']['n'], len(s.o)
            plain(s.call)
            if tree and len(s.o) != was + n:
                out.fail('after-failure', f'{name}: the index holds {was} '
                         f'points after memory was refused, then {len(s.o)} '
                         f'when {n} points are inserted')
            zoo.observe(p, s.o)


class P14(Prop):
    """Histories of calls, then every object is destroyed."""
    id = 'P14'
    races = True

    def generate(self, r, index):
        world = []
        for _ in range(int(r.integers(1, 4))):
            p = zoo.draw(r)
            calls = []
            for _ in range(int(r.integers(1, 6))):
                t = gen_target(r, p)
                u = r.random()
                if u < .12:
                    t = dict(do='damaged', seed=int(r.integers(1 << 30)))
                elif u < .24:
                    t = refused_call(r, p)
                t['alloc'] = int(r.integers(0, 30)) if r.random() < .2 else -1
                calls.append(t)
            world.append(dict(spec=p, calls=calls))
        sc = dict(world=world, sched=sched(r),
                  order=[int(x) for x in r.permutation(len(world))])
        if r.random() < .5:
            sc.update(op=gen_op(r, bool(r.random() < .4)),
                      threads=int(r.integers(0, 5)))
            if r.random() < .4:
                at = int(r.integers(0, 5))
                sc['refuse'] = [at, at + int(r.choice([1, 1 << 40]))]
        if r.random() < .4:
            sc['batch'] = [str(r.choice(list(BATCHES))),
                           int(r.integers(1 << 30)), int(r.integers(1, 12)),
                           int(r.integers(1 << 30))]
        return sc

    def shrink(self, sc):
        if 'batch' in sc:
            yield {k: v for k, v in sc.items() if k != 'batch'}
            if sc['world']:
                yield dict(sc, world=[], order=[])
        if 'op' in sc:
            yield {k: v for k, v in sc.items()
                   if k not in ('op', 'threads', 'refuse')}
            if sc['world']:
                yield dict(sc, world=[], order=[])
        for i in range(len(sc['world'])):
            w = sc['world'][:i] + sc['world'][i + 1:]
            yield dict(sc, world=w, order=list(range(len(w))))
        for i, e in enumerate(sc['world']):
            for j in range(len(e['calls'])):
                w = list(sc['world'])
                w[i] = dict(e, calls=e['calls'][:j] + e['calls'][j + 1:])
                yield dict(sc, world=w)
        if 'refuse' in sc:
            yield {k: v for k, v in sc.items() if k != 'refuse'}

    def history(self, sc, out=None):
        objs = []
        for e in sc['world']:
            p = e['spec']
            s = Subject(p, [], dict(do='make'))
            objs.append(s)
            for t in e['calls']:
                s.t = t
                if t['do'] == 'read':
                    s.fn = dict(zoo.reads(p))[t['read']]
                if t['do'] == 'loads':
                    s.data = pickle.dumps(s.o, 2)
                if t['alloc'] >= 0 and not (
                        t['do'] == 'op' and
                        (p['kind'], t['op']['op']) in PARTIAL):
                    with simrt.refusing((t['alloc'], t['alloc'] + 1),
                                        sc['sched']):
                        a = attempt(s.call)
                else:
                    a = plain(s.call)
                if out:
                    out.tag('call:' + p['kind'] + ' ' + t['do'])
                    out.note((p['kind'], t['do'], a[0]))
                    if a[0] == 'err':
                        out.tag('calls that failed')
                a = None
        if 'op' in sc:
            c = ops.make(sc['op'])
            fault = {}
            if 'refuse' in sc:
                fault['threads'] = sc['refuse']
            with simrt.session(simrt.make_config(sc['sched'], fault,
                                                 races=False)):
                a = attempt(c.call, sc['threads'])
            if out:
                out.tag('op:' + sc['op']['op'])
                out.note(a[0])
                if simrt.shared.status == 3:
                    out.fail('leaked-thread', sc['op']['op'] +
                             ': a thread outlives the call')
            a = c = None
        if 'batch' in sc:
            name, seed, size, hit = sc['batch']
            pts, fn = BATCHES[name](rng('batch', seed), size)
            pts = [np.array(x) for x in pts]
            if hit & 3 == 0:
                corrupt(pts[0], hit % size, hit, 0)
            a = plain(lambda: fn(pts))
            if out:
                out.tag('op:' + name)
                out.note(a[0])
            a = pts = fn = None
        for i in sc['order']:
            objs[i].o = None
            objs[i] = None
        objs.clear()

    def execute(self, sc, out):
        self.history(sc, out)
        self.history(sc)
        m = [blocks()]
        for _ in range(2):
            self.history(sc)
            m.append(blocks())
        fired = int(simrt.shared.alloc_fail + simrt.shared.thread_fail)
        if int(simrt.shared.alloc_fail):
            out.tag('fault:memory refused', int(simrt.shared.alloc_fail))
        if int(simrt.shared.thread_fail):
            out.tag('fault:thread refused', int(simrt.shared.thread_fail))
        out.nontrivial = fired > 0 or len(sc['world']) > 1
        report_races(out, 'history', BAD)
        what = ', '.join(
            e['spec']['kind'] + ' ' + '/'.join(
                t.get('read', t.get('name', t['do'])) for t in e['calls'])
            for e in sc['world'])
        if 'op' in sc:
            what += ' ' + sc['op']['op']
        if m[2] > m[1] > m[0]:
            out.fail('leak', f'{what}: {m[2] - m[1]} blocks are lost each '
                     'time the history runs')
            return
        m = np.zeros(9, 'u8')
        for i in range(9):
            if i:
                self.history(sc)
            gc.collect()
            sys._clear_type_cache()
            m[i] = simrt.lib.sim_total_blocks()
            if i and m[i] <= m[i - 1]:
                break
        else:
            out.fail('leak', f'{what}: {int(m[-1] - m[-2])} blocks of Python '
                     'objects are lost each time the history runs')
