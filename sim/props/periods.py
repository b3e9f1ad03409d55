"""P17: lists of periods gathered from several places."""
import copy
import pickle

import numpy as np

import simrt
import zoo
from harness import Prop, attempt
from ops import rng_of

TICKS = dict(ns=1, us=1, ms=1, s=1, D=1)


# ---------------------------------------------------------------------------
# Reference model: [(first instant, last instant)], integers.
def ordered(m):
    return all(a[0] <= b[0] for a, b in zip(m, m[1:]))


def disjoint(m):
    return all(a[1] < b[0] for a, b in zip(m, m[1:]))


def union(a, b):
    """Overlapping periods become one; periods that only follow each other
    stay apart."""
    out = []
    for f, t in sorted(a + b):
        if out and f <= out[-1][1]:
            out[-1] = (out[-1][0], max(t, out[-1][1]))
        else:
            out.append((f, t))
    return out


def joined(m, gap):
    out = []
    for f, t in m:
        if out and f - out[-1][1] <= gap:
            out[-1] = (out[-1][0], max(t, out[-1][1]))
        else:
            out.append((f, t))
    return out


# ---------------------------------------------------------------------------
class Layer:
    """The Python classes, in one unit of time."""

    def __init__(self, unit):
        self.unit = unit

    def make(self, m, unit=None):
        a = np.array(m, 'i8').reshape(-1, 2).T
        return zoo.P().period.PeriodList(
            np.ascontiguousarray(a).astype(f'M8[{unit or self.unit}]'))

    def empty(self):
        if self.unit == 'ns':
            return zoo.P().period.PeriodList.empty()
        return self.make([])

    def period(self, f, t, unit=None):
        u = unit or self.unit
        return zoo.P().period.Period(np.datetime64(f, u), np.datetime64(t, u))

    def read(self, o):
        v = o.periods
        return [(int(a), int(b)) for a, b in zip(v['begin'].astype('i8'),
                                                 v['last'].astype('i8'))]

    def dates(self, d):
        return np.array(d, 'i8').astype(f'M8[{self.unit}]')

    def delta(self, n):
        return np.timedelta64(int(n), self.unit)

    def date(self, d):
        return np.datetime64(int(d), self.unit)

    def join(self, o, gap, inplace):
        return o.join_adjacent_periods(self.delta(gap), inplace=inplace)

    def durations(self, o):
        v = o.duration()
        assert v.dtype == np.dtype(f'm8[{self.unit}]'), v.dtype
        return v.astype('i8').tolist()


class CoreLayer(Layer):
    """The classes of the extension."""
    DTYPE = [('begin', 'i8'), ('last', 'i8')]

    def make(self, m, unit=None):
        a = np.zeros(len(m), self.DTYPE)
        for i, (f, t) in enumerate(m):
            a[i] = (f, t)
        return zoo.C().PeriodList(a)

    def empty(self):
        return self.make([])

    def period(self, f, t, unit=None):
        return zoo.C().Period(f, t, True)

    def dates(self, d):
        return np.array(d, 'i8')

    def delta(self, n):
        return int(n)

    def date(self, d):
        return int(d)

    def join(self, o, gap, inplace):
        return o.join_adjacent_periods(gap)

    durations = None


def draw_list(r, kind, span, scale):
    n = int(r.choice([0, 1, 1, 2, 3, 6, 12]))
    f = np.sort(r.integers(0, span, n)) * scale
    t = f + r.integers(0, max(span // 6, 2), n) * scale
    m = [(int(a), int(b)) for a, b in zip(f, t)]
    if kind == 'disjoint':
        m = union(m, [])
    elif kind == 'adjacent':
        cut = np.unique(r.integers(0, span, n + 1)) * scale
        m = [(int(a), int(b) - 1) for a, b in zip(cut, cut[1:])]
    elif kind == 'mixed':
        r.shuffle(m)
        m = [(int(a), int(b)) for a, b in m]
    return m


class P17(Prop):
    id = 'P17'

    def generate(self, r, index):
        unit = str(r.choice(['ns', 'us', 'ms', 's', 'D']))
        layer = str(r.choice(['python', 'python', 'core']))
        span = int(r.choice([12, 40, 200]))
        scale = int(r.choice([1, 1, 1, 1000])) if unit != 'D' else 1
        offset = int(r.choice([0, 0, -1000, 10**6]))
        lists = []
        for _ in range(int(r.integers(2, 6))):
            m = draw_list(r, str(r.choice(['disjoint', 'disjoint', 'adjacent',
                                           'nested', 'mixed'])), span, scale)
            lists.append([[a + offset * scale, b + offset * scale]
                          for a, b in m])
        coarse = layer == 'python' and scale == 1000 and \
            unit in ('us', 'ms', 'ns')
        acts = []
        n = len(lists)
        for _ in range(int(r.integers(2, 14))):
            i, j = int(r.integers(0, n)), int(r.integers(0, n))
            u = r.random()
            if u < .5:
                acts.append(dict(do='merge', i=i, j=j))
            elif u < .58:
                acts.append(dict(do='join', i=i, gap=int(
                    r.choice([0, 1, 2, 5])) * int(r.choice([1, scale])),
                    inplace=bool(r.integers(0, 2))))
            elif u < .64:
                acts.append(dict(do='sort', i=i))
            elif u < .74:
                acts.append(dict(do='copy', i=i, j=j, how=str(r.choice(
                    ['p2', 'p5', 'deepcopy']))))
            elif u < .82:
                acts.append(dict(do='save', i=i))
            elif u < .9:
                acts.append(dict(do='crash', i=i))
            elif u < .95:
                acts.append(dict(do='retry', i=i))
            else:
                acts.append(dict(do='reset', i=i))
        return dict(unit=unit, layer=layer, lists=lists, acts=acts,
                    span=span, scale=scale, offset=offset,
                    coarse=[bool(coarse and r.random() < .4)
                            for _ in lists], seed=int(r.integers(1 << 30)))

    def shrink(self, sc):
        for i in range(len(sc['acts'])):
            yield dict(sc, acts=sc['acts'][:i] + sc['acts'][i + 1:])
        for i, m in enumerate(sc['lists']):
            for k in range(len(m)):
                ls = list(sc['lists'])
                ls[i] = m[:k] + m[k + 1:]
                yield dict(sc, lists=ls)

    COARSER = dict(ns='us', us='ms', ms='s')

    def execute(self, sc, out):
        L = (CoreLayer if sc['layer'] == 'core' else Layer)(sc['unit'])
        model = [[tuple(p) for p in m] for m in sc['lists']]
        objs = []
        for m, c in zip(model, sc['coarse']):
            if c:  # the same list, in a coarser unit of time
                k = len(objs)
                objs.append(L.make([(a // 1000, b // 1000) for a, b in m],
                                   self.COARSER[sc['unit']]))
                model[k] = [(a // 1000 * 1000, b // 1000 * 1000)
                            for a, b in m]
                out.tag('list in another unit of time')
            else:
                objs.append(L.make(m))
        units = [c for c in sc['coarse']]
        saved = {}
        since = {i: [] for i in range(len(objs))}

        def merge(i, other, mother):
            # merging expects lists in order
            for k, o in ((i, objs[i]), (None, other)):
                if k is not None and not ordered(model[k]):
                    o.sort()
                    model[k] = sorted(model[k])
            if not ordered(mother):
                other.sort()
                mother = sorted(mother)
            objs[i].merge(other)
            model[i] = union(model[i], mother)

        for act in sc['acts']:
            do, i = act['do'], act['i']
            if units[i] and do != 'reset':
                # a list in a coarse unit is only read
                continue
            out.tag('action:' + do)
            if do == 'merge':
                j = act['j']
                before = list(model[j])
                a = attempt(merge, i, objs[j], model[j])
                if i != j:
                    if not ordered(before):
                        since[j].append(('sort', 0, 0))
                    model[j] = before if ordered(before) else sorted(before)
                since[i].append(('merge', list(model[j]), units[j]))
                out.nontrivial = True
            elif do == 'join':
                if not ordered(model[i]):
                    continue
                a = attempt(L.join, objs[i], act['gap'], act['inplace'])
                want = joined(model[i], act['gap'])
                if a[0] == 'ok' and self.compare(
                        L, objs[i], model[i] if sc['layer'] == 'core' or
                        not act['inplace'] else want, 'join', out):
                    return
                if a[0] == 'ok':
                    objs[i] = a[1]
                    model[i] = want
                    since[i].append(('join', act['gap'], 0))
            elif do == 'sort':
                a = attempt(objs[i].sort)
                model[i] = sorted(model[i])
                since[i].append(('sort', 0, 0))
            elif do == 'copy':
                j = act['j']
                if units[j]:
                    continue
                how = act['how']
                a = attempt(copy.deepcopy, objs[i]) if how == 'deepcopy' \
                    else attempt(lambda o: pickle.loads(pickle.dumps(
                        o, int(how[1:]))), objs[i])
                if a[0] == 'ok':
                    objs[j], model[j] = a[1], list(model[i])
                    saved.pop(j, None)
                    since[j] = [('set', list(model[i]), 0)]
            elif do == 'save':
                a = attempt(pickle.dumps, objs[i], 5)
                if a[0] == 'ok':
                    saved[i] = a[1]
                    since[i] = []
            elif do == 'crash':
                out.tag('fault:crash')
                out.nontrivial = True
                if i in saved:
                    a = attempt(pickle.loads, saved[i])
                    if a[0] == 'err':
                        out.fail('not-restorable', a[1:])
                        return
                    objs[i] = a[1]
                else:
                    objs[i] = L.make([tuple(p) for p in sc['lists'][i]])
                # the model keeps its state: what was done is done again
                keep = model[i]
                model[i] = L.read(objs[i])
                for what, v, c in since[i]:
                    if what == 'set':
                        objs[i], model[i] = L.make(v), list(v)
                    elif what == 'merge':
                        o = L.make(v)
                        a = attempt(merge, i, o, v)
                    elif what == 'join':
                        objs[i] = L.join(objs[i], v, True)
                        model[i] = joined(model[i], v)
                    else:
                        objs[i].sort()
                        model[i] = sorted(model[i])
                if model[i] != keep and sorted(model[i]) != sorted(keep):
                    out.fail('replay', f'{model[i]} instead of {keep} after '
                             'a crash and the same merges')
                    return
                a = ('ok', None)
            elif do == 'retry':
                # a result is delivered a second time
                again = [e for e in since[i] if e[0] == 'merge']
                if not again or any(e[0] == 'join' for e in since[i]):
                    continue
                out.tag('fault:merged twice')
                keep = list(model[i])
                a = attempt(merge, i, L.make(again[-1][1]), again[-1][1])
                if union(keep, []) == keep and model[i] != keep:
                    out.fail('harness', 'model')
            else:
                objs[i] = L.empty()
                model[i] = []
                units[i] = False
                saved.pop(i, None)
                since[i] = [('set', [], 0)]
                a = ('ok', None)
            if a[0] == 'err':
                out.fail('error', f'{do}: {a[1:]}')
                return
            if self.compare(L, objs[i], model[i], do, out):
                return
            j = act.get('j', i)
            if not units[j] and self.compare(L, objs[j], model[j], do + ' '
                                             '(other list)', out):
                return
        for i, o in enumerate(objs):
            if units[i]:
                continue
            if self.compare(L, o, model[i], 'end', out):
                return
            self.queries(L, o, model[i], sc, i, out)
            if self.compare(L, o, model[i], 'queries', out):
                return
            out.note(model[i])

    def compare(self, L, o, m, what, out):
        got = L.read(o)
        if got != m and (ordered(m) is False or sorted(got) != sorted(m)):
            out.fail('content', f'{what}: {got} instead of {m}')
            return True
        if len(o) != len(m):
            out.fail('content', f'{what}: {len(o)} periods instead of '
                     f'{len(m)}')
            return True
        return False

    def queries(self, L, o, m, sc, i, out):
        m = L.read(o)  # equal beginnings are in any order
        r = rng_of(sc['seed'] + i)
        scale, span = sc['scale'], sc['span']
        lo = sc['offset'] * scale

        def instant():
            return int(r.integers(-3, span + span // 6 + 3)) * scale + lo + \
                int(r.integers(-1, 2))

        def check(name, a, want):
            if a[0] == 'err':
                out.fail('query', f'{name}: {a[1:]}')
            elif a[1] != want:
                out.fail('query', f'{name} on {m}: {str(a[1])[:200]} instead '
                         f'of {str(want)[:200]}')

        flat = disjoint(m)
        got = attempt(o.are_periods_sorted_and_disjointed)
        check('are_periods_sorted_and_disjointed', got, flat)
        dates = sorted(instant() for _ in range(int(r.integers(0, 25))))
        if flat:
            check(f'belong_to_a_period {dates}',
                  attempt(lambda: o.belong_to_a_period(
                      L.dates(dates)).tolist()),
                  [any(f <= d <= t for f, t in m) for d in dates])
            check(f'cross_a_period {dates}',
                  attempt(lambda: o.cross_a_period(L.dates(dates)).tolist()),
                  [any(t >= d and f <= dates[-1] for f, t in m)
                   for d in dates])
        for _ in range(3):
            d, e = instant(), int(r.integers(0, 4)) * scale
            check(f'is_it_close {d} {e}',
                  attempt(o.is_it_close, L.date(d), L.delta(e)),
                  any(f - e <= d <= t + e for f, t in m))
        a, b = sorted((instant(), instant()))
        unit = None
        if sc['layer'] == 'python' and sc['unit'] in self.COARSER and \
                r.random() < .3:
            # the limits in a coarser unit
            a, b = a // 1000 * 1000, b // 1000 * 1000
            p = L.period(a // 1000, b // 1000, self.COARSER[sc['unit']])
            out.tag('period in another unit of time')
        else:
            p = L.period(a, b)
        check(f'intersection {a} {b}',
              attempt(lambda: L.read(o.intersection(p))),
              [(max(f, a), min(t, b)) for f, t in m
               if max(f, a) <= min(t, b)])
        got = attempt(lambda: L.read(o.within(p)))
        if got[0] == 'err':
            out.fail('query', f'within: {got[1:]}')
        else:
            need = [q for q in m if a <= q[0] and q[1] <= b]
            may = [q for q in m if q[1] >= a and q[0] <= b]
            if not (all(q in got[1] for q in need) and
                    all(q in may for q in got[1])):
                out.fail('query', f'within {a} {b} on {m}: {got[1]}')
        if L.durations:
            # up to the last instant, or with it
            got = attempt(L.durations, o)
            want = [t - f for f, t in m]
            if got != ('ok', [n + 1 for n in want]):
                check('durations', got, want)
        n = int(r.integers(0, max(span // 6, 2))) * scale
        check(f'filter {n}', attempt(lambda: L.read(o.filter(L.delta(n)))),
              [(f, t) for f, t in m if t + 1 - f >= n])
        self.pairs(L, r, instant, check, self.COARSER.get(sc['unit'])
                   if sc['layer'] == 'python' else None, out)

    def pairs(self, L, r, instant, check, coarser, out):
        a = sorted((instant(), instant()))
        b = sorted((instant(), instant()))
        if r.random() < .4:
            b = [a[1] + 1, a[1] + 1 + b[1] - b[0]]
        p, d = L.period(*a), instant()
        if coarser and r.random() < .3:
            # the other period is in a coarser unit
            k = b[1] // 1000 - b[0] // 1000
            b = [b[0] // 1000 * 1000]
            if r.random() < .4:  # and follows the first one
                a[1] = max(a[0], a[1] // 1000 * 1000 - 1)
                b = [a[1] + 1] if a[1] % 1000 == 999 else b
                p = L.period(*a)
            b.append(b[0] + k * 1000)
            q = L.period(b[0] // 1000, b[1] // 1000, coarser)
            out.tag('pair in two units of time')
        else:
            q = L.period(*b)
        name = f'{a} {b} {d}'
        inter = max(a[0], b[0]) <= min(a[1], b[1])
        check('intersects ' + name, attempt(p.intersects, q), inter)
        check('contains ' + name, attempt(p.contains, q),
              a[0] <= b[0] and b[1] <= a[1])
        check('contains date ' + name, attempt(p.contains, L.date(d)),
              a[0] <= d <= a[1])
        check('is_adjacent ' + name, attempt(p.is_adjacent, q),
              a[1] + 1 == b[0] or b[1] + 1 == a[0])
        check('is_before ' + name, attempt(p.is_before, L.date(d)), a[1] < d)
        check('is_after ' + name, attempt(p.is_after, L.date(d)), d < a[0])

        same = getattr(p, 'resolution', 0) == getattr(q, 'resolution', 0)
        if same:
            check('== ' + name, attempt(lambda: p == q), a == b)
            check('!= ' + name, attempt(lambda: p != q), a != b)
            check('< ' + name, attempt(lambda: p < q), a[0] < b[0])
        check('== itself ' + name, attempt(
            lambda: p == L.period(*a)), True)
        for v in (3, 'x', None) if L.durations else ():
            check(f'== {v!r} {name}', attempt(lambda: p == v), False)
            if attempt(lambda: p < v)[0] == 'ok':
                out.fail('query', f'{name}: the period is before {v!r}')
        check('duration ' + name, attempt(lambda: int(np.int64(
            p.duration()))), a[1] + 1 - a[0])
        check('end ' + name, attempt(lambda: int(np.int64(p.end()))),
              a[1] + 1)
        if coarser and p.resolution in self.COARSER and \
                hasattr(p, 'as_resolution'):
            w = attempt(lambda: p.as_resolution(coarser))
            check('as_resolution ' + name, attempt(lambda: (
                w[1].resolution, int(w[1].begin.astype('i8')),
                int(w[1].last.astype('i8')))),
                (coarser, a[0] // 1000, a[1] // 1000))

        def ends(x):
            return None if x.is_null() else (
                int(np.int64(x.begin)) if isinstance(x.begin, int) else
                int(x.begin.astype('i8')),
                int(np.int64(x.last)) if isinstance(x.last, int) else
                int(x.last.astype('i8')))

        check('intersection ' + name, attempt(lambda: ends(
            p.intersection(q))), (max(a[0], b[0]), min(a[1], b[1]))
            if inter else None)
        check('merge ' + name, attempt(lambda: ends(p.merge(q))),
              (min(a[0], b[0]), max(a[1], b[1])) if inter else None)
