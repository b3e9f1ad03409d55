"""P16: an answer depends on the object and the arguments only."""
import json
import os

import bad
import simrt
import zoo
from harness import Prop, attempt, rng, sched

from .faults import BAD
from .parallel import report_races
from .readers import threaded


def aside(fn):
    """Value of the function in a process of its own."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(wfd, data):]
        finally:
            os._exit(0)
    os.close(wfd)
    chunks = []
    while True:
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    raw = b''.join(chunks)
    return json.loads(raw) if raw and not status else None


def answer(fn, o, n):
    a = attempt(lambda: zoo.canon(fn(o, n=n) if threaded(fn) else fn(o)))
    if a[0] == 'ok':
        return ['ok', zoo.show(a[1])]
    return ['err', a[1], a[2][:200]]


class P16(Prop):
    """Several objects are used in turn; every answer is compared with the
    one of an object alone in a new process, whose memory holds other
    remains."""
    id = 'P16'
    races = True

    def generate(self, r, index):
        world, ops = [], []
        for _ in range(int(r.integers(1, 4))):
            world.append(zoo.draw(r))
        if r.random() < .5:
            # two of a kind
            world.append(zoo.draw(r, [world[0]['kind']]))
        acts = []
        for _ in range(int(r.integers(4, 16))):
            i = int(r.integers(0, len(world)))
            p = world[i]
            k = zoo.KINDS[p['kind']]
            u = r.random()
            if u < .2 and k.mutable:
                op = k.gen_op(r, p)
                if op:
                    acts.append(dict(i=i, do='op', op=op))
                    continue
            if u < .3 and p['kind'] in bad.TABLE:
                names = [n for n, _ in bad.calls(p)]
                if names:
                    acts.append(dict(i=i, do='bad', seed=int(
                        r.integers(1 << 30)), name=str(r.choice(names))))
                    continue
            names = [n for n, _ in zoo.reads(p)]
            if not names:
                continue
            acts.append(dict(i=i, do='read', name=str(r.choice(names)),
                             n=int(r.choice([1, 1, 2, 3])),
                             alloc=int(r.integers(0, 30))
                             if r.random() < .1 else -1))
        return dict(world=world, acts=acts, sched=sched(r),
                    fill=int(r.choice([0x00, 0xff, 0x7f, 0x3f])))

    def shrink(self, sc):
        for i in range(len(sc['acts'])):
            yield dict(sc, acts=sc['acts'][:i] + sc['acts'][i + 1:])

    def execute(self, sc, out):
        world = sc['world']
        kinds = [zoo.KINDS[p['kind']] for p in world]
        want = self.expected(sc, out)
        if out.viol:
            return
        fill = sc['fill']
        cfg = simrt.make_config(sc['sched'], {}, races=True, fill=fill)
        with simrt.session(simrt.make_config(dict(mode=3, cores=2, seed=0),
                                             races=False, fill=fill)):
            objs = [zoo.make(p) for p in world]
        done = [[] for _ in world]
        for step, act in enumerate(sc['acts']):
            i, do = act['i'], act['do']
            p, name = world[i], world[i]['kind']
            out.note(do)
            if do == 'op':
                with simrt.session(cfg):
                    a = attempt(kinds[i].apply, objs[i], act['op'], p)
                done[i].append(act['op'])
                out.note(a[0])
                continue
            if do == 'bad':
                fn = dict(bad.calls(p))[act['name']]
                with simrt.session(cfg):
                    attempt(fn, objs[i], rng('bad', act['seed']))
                out.tag('fault:refused call')
                continue
            fn = dict(zoo.reads(p))[act['name']]
            if act['alloc'] >= 0:
                at = act['alloc']
                with simrt.refusing((at, at + 1)):
                    attempt(fn, objs[i])
                out.tag('fault:memory refused')
            with simrt.session(cfg):
                a = answer(fn, objs[i], act['n'])
            report_races(out, f'{name}.{act["name"]}', BAD)
            if out.viol:
                return
            out.nontrivial = True
            out.tag('answers')
            out.note(a)
            if a != want[step]:
                out.fail('answer', f'{name}.{act["name"]} after '
                         f'{self.before(sc, step)}: {a} instead of '
                         f'{want[step]} in a new process')
                return

    def before(self, sc, step):
        return [sc['world'][a['i']]['kind'] + '.' + (
            a['op']['op'] if a['do'] == 'op' else a['name'])
            for a in sc['acts'][:step]]

    def expected(self, sc, out):
        """Answers of objects that were asked nothing else."""
        world = sc['world']
        want = {}
        groups = {}
        done = [[] for _ in world]
        for step, act in enumerate(sc['acts']):
            i = act['i']
            if act['do'] == 'op':
                done[i].append(act['op'])
            elif act['do'] == 'read':
                groups[step] = (i, list(done[i]))
        for step, (i, ops) in groups.items():
            act = sc['acts'][step]
            p = world[i]
            k = zoo.KINDS[p['kind']]

            def alone():
                with simrt.session(simrt.make_config(
                        dict(mode=3, cores=2, seed=0), races=False,
                        fill=0x5B)):
                    o = zoo.make(p)
                    for op in ops:
                        attempt(k.apply, o, op, p)
                    return answer(dict(zoo.reads(p))[act['name']], o,
                                  act['n'])

            want[step] = aside(alone)
            if want[step] is None:
                out.fail('crash', f'{p["kind"]}.{act["name"]} stops the '
                         'process')
                return want
        return want


