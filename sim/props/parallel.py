"""Properties of the operations that use several threads."""
import threading

import numpy as np

import ops
import simrt
from harness import Prop, attempt, sched, shrink_sched

THREADS = [2, 2, 3, 3, 4, 5, 7, 8, 0, 0, 13, 16, 31]


def gen_op(r, error=False, names=None):
    return ops.generate(r, names, error)


def inputs_state(c):
    state = [ops.canonical(a) for a in c.inputs]
    if c.snapshot:
        state.append(ops.canonical(c.snapshot()))
    return state


def parallel(sc, call, n, fault=None, races=False, workers_only=False,
             window=False):
    cfg = simrt.make_config(sc['sched'], fault, races=races,
                            fill=sc.get('fill', 0x5B))
    if workers_only:
        cfg.only_code = 3
    with simrt.session(cfg):
        if window:
            simrt.lib.sim_alloc_window(1)
        try:
            return attempt(call, n)
        finally:
            if window:
                simrt.lib.sim_alloc_window(0)


def reference(call, n=1):
    with simrt.serial():
        return attempt(call, n)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'ok':
        return ops.canonical(a[1]) == ops.canonical(b[1])
    return a[1:] == b[1:]


def diff(a, b):
    if a[0] == 'ok' and b[0] == 'ok':
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if ops.canonical(x) != ops.canonical(y):
                x, y = np.asarray(x), np.asarray(y)
                if x.shape == y.shape:
                    w = np.argwhere(~((x == y) | ((x != x) & (y != y))))
                    if len(w):
                        k = tuple(int(v) for v in w[0])
                        return (f'result {i}: {len(w)} of {x.size} elements '
                                f'differ, first {k}: {x[k]!r} instead of '
                                f'{y[k]!r}')
                return f'result {i}: {x.dtype}{x.shape} / {y.dtype}{y.shape}'
    return f'{ops.describe(a)} instead of {ops.describe(b)}'


def shrink_op(sc):
    for o in ops.shrink(sc['op']):
        yield dict(sc, op=dict(o, op=sc['op']['op']))
    n = sc.get('threads')
    if n and n > 2:
        yield dict(sc, threads=n - 1)
        yield dict(sc, threads=2)
    if n == 0:
        yield dict(sc, threads=2)
    if sc.get('fill', 0x5B) != 0x5B:
        yield dict(sc, fill=0x5B)
    yield from shrink_sched(sc)


class Parallel(Prop):
    error = False

    def generate(self, r, index):
        sc = dict(op=gen_op(r, self.error), sched=sched(r),
                  threads=int(r.choice(THREADS)),
                  fill=int(r.choice([0x5B, 0, 0xFF, 0x7F])))
        return sc

    def shrink(self, sc):
        return shrink_op(sc)

    def observe(self, sc, out, c, res):
        out.tag('op:' + sc['op']['op'])
        s = simrt.shared
        out.nontrivial = s.preemptions > 0
        out.note(ops.canonical(res[1:]))
        if s.maxlive > 2:
            out.tag('three or more threads alive')


class P01(Parallel):
    """Parallel results equal the sequential results."""
    id = 'P01'

    def execute(self, sc, out):
        c = ops.make(sc['op'])
        a = parallel(sc, c.call, sc['threads'])
        self.observe(sc, out, c, a)
        b = reference(c.call)
        if b[0] == 'err':
            out.tag('operation fails')
            if a[0] == 'ok':
                out.fail('error-lost', f'{sc["op"]["op"]}: succeeds with '
                         f'{sc["threads"]} threads, {b[1:]} in sequence')
        elif not same(a, b):
            out.fail('result', f'{sc["op"]["op"]} with {sc["threads"]} '
                     f'threads: {diff(a, b)}')
        if simrt.shared.status == 3:
            out.fail('leaked-thread', 'a thread outlives the call')


def report_races(out, name, kinds=('data-race', 'out-of-bounds',
                                   'use-after-free', 'wild-access',
                                   'bad-free')):
    for rep in simrt.reports():
        if rep['kind'] in kinds:
            out.fail(rep['kind'], f'{name}: {rep["kind"]} at +0x'
                     f'{rep["pc1"]:x} (thread {rep["uid1"]}) and +0x'
                     f'{rep["pc2"]:x} (thread {rep["uid2"]})')


class P02(Parallel):
    """No data race, no wild access, inputs not modified."""
    id = 'P02'

    def generate(self, r, index):
        sc = super().generate(r, index)
        if r.random() < .25:
            sc['op'] = gen_op(r, True)
        return sc

    def execute(self, sc, out):
        c = ops.make(sc['op'])
        before = inputs_state(c)
        a = parallel(sc, c.call, sc['threads'], races=True)
        self.observe(sc, out, c, a)
        if a[0] == 'err':
            out.tag('operation fails')
        report_races(out, sc['op']['op'])
        if inputs_state(c) != before:
            out.fail('input-modified', f'{sc["op"]["op"]} modified its input')


def single_errors(c, size, call):
    """The errors each element alone produces."""
    result = set()
    for i in range(size):
        pts = [p[i:i + 1] for p in c.points]
        e = attempt(lambda n: call(n, pts), 1)
        if e[0] == 'err':
            result.add(e[1:])
    return result


class P03(Parallel):
    """Errors of a worker reach the caller."""
    id = 'P03'
    races = True

    def generate(self, r, index):
        sc = super().generate(r, index)
        if r.random() < .45:
            sc['op'] = gen_op(r, True, ['interp', 'spline'])
            sc['op']['out'] = float(r.choice([.02, .1, .6]))
        else:
            sc['alloc'] = float(r.random())
            sc['count'] = int(r.choice([1, 1, 2, 1000000]))
        return sc

    def shrink(self, sc):
        yield from shrink_op(sc)
        if sc.get('count', 1) > 1:
            yield dict(sc, count=1)

    def execute(self, sc, out):
        c = ops.make(sc['op'])
        name = sc['op']['op']
        before = inputs_state(c)
        fault = None
        if 'alloc' in sc:
            # count the allocations of the workers, then fail some
            parallel(dict(sc, sched=dict(sc['sched'], mode=3)), c.call,
                     sc['threads'], workers_only=True, window=True)
            n = int(simrt.shared.allocs)
            if n == 0:
                out.tag('no allocation in a worker')
                return
            at = int(sc['alloc'] * n)
            fault = dict(allocs=(at, at + sc['count']))
        a = parallel(sc, c.call, sc['threads'], fault, races=True,
                     workers_only=True, window=fault is not None)
        self.observe(sc, out, c, a)
        fired = int(simrt.shared.alloc_fail)
        if fired:
            out.tag('fault:allocation in a worker', fired)
        if simrt.shared.status == 3:
            out.fail('leaked-thread', 'a thread outlives the call')
        report_races(out, name)
        b = reference(c.call)
        if fired:
            out.tag('worker allocation failed: ' +
                    ('reported' if a[0] == 'err' else 'absorbed'))
            if a[0] == 'ok':
                if b[0] != 'ok' or not same(a, b):
                    out.fail('error-swallowed', f'{name}: an allocation '
                             f'failed in a worker, the call returned '
                             f'normally: {diff(a, b)}')
            elif a[1] != 'MemoryError' and not (b[0] == 'err' and
                                                a[1] == b[1]):
                out.fail('other-error', f'{name}: {a[1:]} for a failed '
                         'allocation')
            # the failure leaves nothing behind
            d = parallel(dict(sc, sched=dict(sc['sched'], mode=0, mean=50)),
                         c.call, sc['threads'], races=True)
            if not (same(d, b) or d[0] == b[0] == 'err'):
                out.fail('after-failure', f'{name} after a failure: '
                         f'{diff(d, b)}')
        elif b[0] == 'err':
            out.tag('natural failure')
            if a[0] == 'ok':
                out.fail('error-swallowed', f'{name}: no error, {b[1:]} in '
                         'sequence')
            elif a[1:] != b[1:]:
                errs = single_errors(c, sc['op']['size'], c.call) \
                    if c.points else {b[1:]}
                if a[1:] not in errs:
                    out.fail('other-error', f'{name}: {a[1:]} is not an '
                             f'error of an element ({sorted(errs)[:3]})')
        elif not same(a, b):
            out.fail('result', f'{name}: {diff(a, b)}')
        if inputs_state(c) != before:
            out.fail('input-modified', f'{name} modified its input')


class P04(Parallel):
    """The system refuses to create threads."""
    id = 'P04'
    races = True

    def generate(self, r, index):
        sc = super().generate(r, index)
        k = r.integers(0, 4)
        n = sc['threads'] or sc['sched']['cores']
        if k == 0:
            sc['fault'] = dict(thread_limit=int(r.integers(1, n + 2)))
        elif k == 1:
            sc['fault'] = dict(threads=[0, 1 << 40])
        else:
            at = int(r.integers(0, max(1, 2 * n)))
            if r.random() < .7:
                at = int(r.integers(0, max(1, n)))
            sc['fault'] = dict(threads=[at, at + int(r.choice([1, 1, 2,
                                                               1 << 40]))])
        return sc

    def execute(self, sc, out):
        c = ops.make(sc['op'])
        name = sc['op']['op']
        before = inputs_state(c)
        a = parallel(sc, c.call, sc['threads'], sc['fault'], races=True)
        self.observe(sc, out, c, a)
        fired = int(simrt.shared.thread_fail)
        if fired:
            out.tag('fault:thread creation', fired)
            out.tag('creation refused: ' +
                    ('reported' if a[0] == 'err' else 'completed'))
            out.nontrivial = True
        if simrt.shared.status == 3:
            out.fail('leaked-thread', f'{name}: a thread outlives the call')
        report_races(out, name)
        b = reference(c.call)
        if a[0] == 'ok':
            if not same(a, b):
                out.fail('result', f'{name}: {fired} thread creations '
                         f'refused: {diff(a, b)}')
        elif not fired and b[0] == 'ok':
            out.fail('result', f'{name}: {a[1:]}')
        if inputs_state(c) != before:
            out.fail('input-modified', f'{name} modified its input')
        # the system recovers: so does the operation
        d = parallel(dict(sc, sched=dict(sc['sched'], mode=0, mean=50)),
                     c.call, sc['threads'], races=True)
        if not (same(d, b) or d[0] == b[0] == 'err'):
            out.fail('after-failure', f'{name} after a refused thread '
                     f'creation: {diff(d, b)}')


class P05(Prop):
    """Several caller threads use the same objects."""
    id = 'P05'
    races = True

    def generate(self, r, index):
        from . import readers
        world = readers.gen_world(r)
        callers = [[readers.gen_call(r, world)
                    for _ in range(int(r.integers(1, 4)))]
                   for _ in range(int(r.integers(2, 5)))]
        if r.random() < .6:
            # the same call at the same time: what a function keeps aside
            c = readers.gen_call(r, world, own=r.random() < .5)
            for x in callers:
                x.insert(int(r.integers(len(x) + 1)), dict(c))
        return dict(world=world, sched=sched(r), callers=callers)

    def shrink(self, sc):
        for i in range(len(sc['callers'])):
            if len(sc['callers']) > 2:
                yield dict(sc, callers=sc['callers'][:i] +
                           sc['callers'][i + 1:])
            for j in range(len(sc['callers'][i])):
                if len(sc['callers'][i]) > 1:
                    cs = [list(x) for x in sc['callers']]
                    del cs[i][j]
                    yield dict(sc, callers=cs)
        yield from shrink_sched(sc)

    def execute(self, sc, out):
        from . import readers
        world = readers.World(sc['world'])
        results = [[] for _ in sc['callers']]

        def caller(i):
            for spec in sc['callers'][i]:
                results[i].append(attempt(world.run, spec))

        cfg = simrt.make_config(sc['sched'], races=True)
        threads = [threading.Thread(target=caller, args=(i, ))
                   for i in range(len(results))]
        with simrt.session(cfg):
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        out.nontrivial = simrt.shared.preemptions > 0
        report_races(out, 'concurrent callers')
        for i, specs in enumerate(sc['callers']):
            for spec, a in zip(specs, results[i]):
                out.tag('call:' + spec['call'])
                out.note(ops.canonical(a[1:]))
                with simrt.serial():
                    b = attempt(world.run, spec)
                if not same(a, b):
                    out.fail('result', f'caller {i}, {spec["call"]}: '
                             f'{diff(a, b)}')
        w2 = readers.World(sc['world'])
        if world.state() != w2.state():
            out.fail('object-modified', 'a shared object changed')
