"""P12: calls that are refused leave no trace."""
import bad
import simrt
import zoo
from harness import Prop, attempt, derive, rng, sched, shrink_sched

from .faults import BAD, plain
from .parallel import report_races


def gen_bad(r, p, maker=.12):
    """A call to refuse."""
    names = [n for n, _ in bad.calls(p)]
    if not names or r.random() < maker:
        return dict(do='maker', name=str(r.choice([n for n, _ in
                                                   bad.MAKERS])),
                    seed=int(r.integers(1 << 30)))
    return dict(do='bad', name=str(r.choice(names)),
                seed=int(r.integers(1 << 30)))


class P12(Prop):
    """Histories of accepted and refused calls.

    The reference object only sees the accepted ones.
    """
    id = 'P12'
    races = True

    def generate(self, r, index):
        # most of the calls that can be refused are functions
        kinds = list(bad.TABLE) + ['functions'] * 3
        p = zoo.draw(r, kinds)
        k = zoo.KINDS[p['kind']]
        acts = []
        for _ in range(int(r.integers(2, 12))):
            if r.random() < .4:
                op = k.gen_op(r, p)
                if op:
                    acts.append(dict(do='op', op=op))
                    continue
            acts.append(gen_bad(r, p))
        return dict(spec=p, acts=acts, sched=sched(r))

    def shrink(self, sc):
        for i in range(len(sc['acts'])):
            yield dict(sc, acts=sc['acts'][:i] + sc['acts'][i + 1:])
        yield from shrink_sched(sc)

    def execute(self, sc, out):
        p = sc['spec']
        k = zoo.KINDS[p['kind']]
        live, ref = zoo.make(p), zoo.make(p)
        calls = dict(bad.calls(p))
        makers = dict(bad.MAKERS)
        name = p['kind']
        state = zoo.observe(p, live)
        for i, act in enumerate(sc['acts']):
            if act['do'] == 'op':
                a = plain(k.apply, live, act['op'], p)
                b = plain(k.apply, ref, act['op'], p)
                if a[0] != b[0]:
                    out.fail('operation', f'{name} {act["op"]["op"]}: '
                             f'{a} instead of {b} after refused calls')
                    return
                state = zoo.observe(p, live)
                out.note(a[0])
                continue
            r = rng('bad', act['seed'])
            s = dict(sc['sched'], seed=derive(sc['sched']['seed'], i)
                     & ((1 << 40) - 1))
            cfg = simrt.make_config(s, {}, races=True)
            what = f'{name} {act["name"]}' if act['do'] == 'bad' else \
                act['name']
            bad.modified()
            with simrt.session(cfg):
                if act['do'] == 'bad':
                    a = attempt(calls[act['name']], live, r)
                else:
                    a = attempt(makers[act['name']], r)
            out.tag('fault:refused call')
            out.nontrivial = True
            report_races(out, what, BAD)
            if simrt.shared.status == 3:
                out.fail('leaked-thread', f'{what}: a thread outlives the '
                         'call')
            if out.viol:
                return
            if a[0] == 'ok':
                out.fail('accepted', f'{what}: a call without meaning is '
                         f'accepted and returns {str(a[1])[:120]}')
                return
            out.note((act['name'], a[1]))
            out.tag('refused with ' + a[1])
            if a[1] in ('SystemError', 'MemoryError') or \
                    'unknown exception' in a[2]:
                out.fail('error-kind', f'{what}: {a[1]}: {a[2][:100]}')
            spoiled = bad.modified()
            if spoiled:
                out.fail('argument', f'{what}: the call was refused ({a[1]}) '
                         f'and its argument is now {spoiled[0]!r:.120}')
                return
            now = zoo.observe(p, live)
            if now != state:
                out.fail('changed', f'{what}: the call was refused '
                         f'({a[1]}) and the object changed: '
                         f'{zoo.difference(now, state)}')
                return
        a, b = zoo.observe(p, live), zoo.observe(p, ref)
        if a != b:
            out.fail('history', f'{name}: the refused calls left a trace: '
                     f'{zoo.difference(a, b)}')
        for n, v in a:
            out.note(v)
