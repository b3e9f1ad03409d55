"""P08, P09: statistics computed in pieces and merged."""
import copy
import pickle

import numpy as np

import simrt
import zoo
from harness import Prop, attempt
from ops import rng_of


# ---------------------------------------------------------------------------
# Reference model: the definitions of the statistics, on all the values.
def model(v, w):
    ok = ~np.isnan(v)
    v, w = v[ok].astype('f8'), w[ok].astype('f8')
    r = dict(count=len(v), weights=float(w.sum()), sum=float((w * v).sum()))
    if len(v) == 0:
        r.update(mean=np.nan, min=np.nan, max=np.nan, var=np.nan,
                 skew=np.nan, kurt=np.nan, scale=1.)
        return r
    if w.sum() == 0:
        # nothing is said about the distribution of values without weight
        r.update(mean=None, min=v.min(), max=v.max(), var=None, skew=None,
                 kurt=None, scale=max(np.abs(v).max(), 1.))
        return r
    m = (w * v).sum() / w.sum()
    d = v - m
    m2 = (w * d**2).sum() / w.sum()
    m3 = (w * d**3).sum() / w.sum()
    m4 = (w * d**4).sum() / w.sum()
    r.update(mean=m, min=v.min(), max=v.max(), var=m2,
             scale=max(np.abs(v).max(), 1.))
    # the shape of a distribution without extent is not compared
    flat = m2 < 1e-4 * r['scale']**2
    r['skew'] = None if flat else m3 / m2**1.5
    r['kurt'] = None if flat else m4 / m2**2 - 3
    return r


def close(a, b, tol):
    if b is None:
        return True
    if b != b or a != a:
        return (a != a) == (b != b)
    return abs(a - b) <= tol


def against(stats, m, dtype, weighted, label, skip=()):
    """stats: dict of scalars.  None or the difference."""
    eps = 2e-5 if dtype == 'float32' else 1e-11
    n = max(m['count'], 1)
    s = m['scale']
    wtot = max(m['weights'], 1)
    tol = dict(count=0, weights=eps * wtot, sum=eps * wtot * s * 4,
               mean=eps * s * 4, min=0, max=0, var=eps * s * s * 40,
               skew=eps * 4e3 * np.sqrt(n), kurt=eps * 4e4 * n)
    for k, t in tol.items():
        if k in skip or k not in stats:
            continue
        if weighted and k in ('min', 'max'):
            continue  # compared with the single pass only
        if dtype == 'float32' and k in ('skew', 'kurt') and \
                (m['var'] or 0) < 1e-2 * s * s:
            continue
        if not close(float(stats[k]), m[k], t):
            return (f'{label} {k}: {float(stats[k])!r} instead of '
                    f'{m[k]!r} ({m["count"]} values)')
    return None


def values(r, n, dtype, kind):
    """Test values: exactly representable in both types."""
    v = r.integers(-50, 50, n) / 4.
    if kind == 'offset':
        v = v + (1000. if dtype == 'float32' else 1e6)
    elif kind == 'negative':
        v = v - 20
    elif kind == 'positive':
        v = v + 20
    elif kind == 'few':
        v = np.round(v / 10) * 2
    elif kind == 'same':
        v = np.full(n, 3.25)
    v = v.astype(dtype)
    v[r.random(n) < .08] = np.nan
    return v


KIND = ['plain', 'plain', 'negative', 'positive', 'offset', 'few', 'same']


def weights(r, sc, n):
    w = r.integers(1, 6, n).astype(sc['dtype'])
    if sc.get('zeros'):
        w[r.random(n) < .3] = 0
        w[:int(r.integers(0, 4))] = 0
    return w


class Pieces:
    """One accumulation target: how to build it, feed it and read it."""

    def __init__(self, sc):
        self.sc = sc
        self.dtype = sc['dtype']
        r = rng_of(sc['seed'])
        n = sc['n']
        self.v = values(r, n, self.dtype, sc['values'])
        self.w = weights(r, sc, n) if sc['weights'] else None
        self.x = (r.integers(-4, 40, n) / 4.).astype(self.dtype)
        self.y = (r.integers(-4, 40, n) / 4.).astype(self.dtype)
        self.row = sc.get('row', 1)

    def cut(self, lo, hi):
        return slice(lo, hi)

    def all(self):
        return self.fill(self.empty(), slice(0, len(self.v)))

    weighted = property(lambda self: self.w is not None)
    skip = ()


class Binned(Pieces):

    def axis(self, n):
        sc = self.sc
        if sc.get('circle'):
            return zoo.C().Axis(np.arange(n) * 360. / n, is_circle=True)
        return zoo.C().Axis(np.arange(n) * 2.)

    def part(self, s):
        return self.fill(self.blank(s.start), s)

    def blank(self, k=0):
        """An empty object, new or used before."""
        o = self.empty()
        if (self.sc['seed'] + k) % 3 == 0:
            n = len(self.v)
            self.fill(o, slice(n // 3, n))
            o.clear()
        return o

    def cells(self, v):
        raise NotImplementedError

    def read(self, o, stats=None):
        g = o.variable
        out = dict(count=g('count'), weights=g('sum_of_weights'),
                   mean=g('mean'), min=g('min'), max=g('max'),
                   var=g('variance'), skew=g('skewness'), kurt=g('kurtosis'))
        if hasattr(o._instance, 'sum'):
            out['sum'] = g('sum')
        return out

    def check(self, o):
        st = self.read(o)
        idx = self.index()
        w = np.ones(len(self.v)) if self.w is None else self.w
        shape = st['count'].shape
        for cell in np.ndindex(shape):
            at = np.all([i == c for i, c in zip(idx, cell)], axis=0)
            d = against({k: a[cell] for k, a in st.items()},
                        model(self.v[at], w[at]), self.dtype, self.weighted,
                        f'cell {cell}', self.skip)
            if d:
                return d
        return None


class B2(Binned):
    name = 'Binning2D'

    def empty(self):
        wgs = zoo.P().geodetic.Spheroid() if self.sc['wgs'] else None
        return zoo.P().Binning2D(self.axis(self.sc['nx']),
                                 self.axis_y(), wgs, np.dtype(self.dtype))

    def axis_y(self):
        return zoo.C().Axis(np.arange(self.sc['ny']) * 2.)

    def fill(self, o, s):
        o.push(self.x[s], self.y[s], self.v[s], *self.simple())
        return o

    def index(self):
        return (self.axis(self.sc['nx']).find_index(
            self.x.astype('f8'), bounded=True),
            self.axis_y().find_index(self.y.astype('f8'), bounded=True))

    def check(self, o):
        if self.sc['simple']:
            return super().check(o)
        return None

    def delayed(self, da, o):
        return o.push_delayed(da(self.x), da(self.y), da(self.v),
                              *self.simple())

    def simple(self):
        # it is the default
        return [] if self.sc['simple'] and len(self.v) % 2 else \
            [self.sc['simple']]

    @property
    def weighted(self):
        return not self.sc['simple']


class H2(B2):
    name = 'Histogram2D'

    def empty(self):
        return zoo.P().Histogram2D(self.axis(self.sc['nx']), self.axis_y(),
                                   self.sc['bins'] or None,
                                   np.dtype(self.dtype))

    def fill(self, o, s):
        o.push(self.x[s], self.y[s], self.v[s])
        return o

    def delayed(self, da, o):
        return o.push_delayed(da(self.x), da(self.y), da(self.v))

    weighted = False

    @property
    def skip(self):
        # moments of compressed histograms are approximations
        if self.sc['bins'] and self.sc['bins'] < self.sc['n']:
            return ('var', 'skew', 'kurt')
        if self.sc['n'] > 100:
            return ('var', 'skew', 'kurt')
        return ()

    def check(self, o):
        return Binned.check(self, o)


class B1(Binned):
    name = 'Binning1D'

    def empty(self):
        rg = (self.sc['range'][0], self.sc['range'][1]) \
            if self.sc['range'] else None
        return zoo.P().Binning1D(self.axis(self.sc['nx']), rg,
                                 np.dtype(self.dtype))

    def fill(self, o, s):
        o.push(self.x[s], self.v[s], None if self.w is None else self.w[s])
        return o

    def index(self):
        ax = self.axis(self.sc['nx'])
        lo, hi = self.sc['range'] or (ax.min_value(), ax.max_value())
        ix = ax.find_index(self.x.astype('f8'), bounded=True)
        ix = np.where((self.x >= lo) & (self.x <= hi), ix, -1)
        return (ix, np.zeros(len(ix), 'i8'))

    def delayed(self, da, o):
        return o.push_delayed(da(self.x), da(self.v),
                              None if self.w is None else da(self.w))


class Direct(Pieces):
    """Statistics computed by their constructor."""

    def part(self, s):
        shape = self.shape(s)
        v = self.v[s].reshape(shape)
        w = None if self.w is None else self.w[s].reshape(shape)
        return self.build(v, w)

    def shape(self, s):
        return (-1, ) + tuple(self.sc['shape'])

    def cut(self, lo, hi):
        k = int(np.prod(self.sc['shape']))
        return slice(lo * k, hi * k)

    def all(self):
        return self.part(slice(0, len(self.v)))

    def delayed(self, da, o):
        shape = self.shape(None)
        return self.build(da(self.v.reshape(shape)),
                          None if self.w is None else
                          da(self.w.reshape(shape)))

    def axis(self):
        """The axes, in one of the accepted forms."""
        a = self.sc['axis']
        form = self.sc.get('form', 0)
        if a is None:
            return None
        if form == 1 and len(a) == 1:
            return a[0]
        return tuple(a) if form == 2 else list(a)

    def check(self, o):
        st = self.read(o)
        shape = (len(self.v) // int(np.prod(self.sc['shape'])), ) + \
            tuple(self.sc['shape'])
        v = self.v.reshape(shape)
        w = np.ones(shape) if self.w is None else self.w.reshape(shape)
        axis = self.sc['axis']
        if axis is None:
            v, w = v.reshape(1, -1), w.reshape(1, -1)
            cells = (1, )
        else:
            keep = [i for i in range(v.ndim) if i not in axis]
            cells = tuple(shape[i] for i in keep)
            v = np.transpose(v, keep + list(axis)).reshape(cells + (-1, ))
            w = np.transpose(w, keep + list(axis)).reshape(cells + (-1, ))
        if st['count'].shape != cells:
            return f'shape {st["count"].shape} instead of {cells}'
        for c in np.ndindex(cells):
            d = against({k: a[c] for k, a in st.items()}, model(v[c], w[c]),
                        self.dtype, self.weighted, f'cell {c}', self.skip)
            if d:
                return d
        return None


class DS(Direct):
    name = 'DescriptiveStatistics'

    def build(self, v, w):
        return zoo.P().DescriptiveStatistics(v, w, self.axis(),
                                             np.dtype(self.dtype))

    def check(self, o):
        d = super().check(o)
        if d:
            return d
        v = np.asarray(o.var(), 'f8')
        n = np.asarray(o.sum_of_weights(), 'f8')
        for k in (0, 1, 2):
            with np.errstate(all='ignore'):
                a, b = np.asarray(o.var(k), 'f8'), np.asarray(o.std(k), 'f8')
                if not np.allclose(b, np.sqrt(a), 1e-5, 0, equal_nan=True):
                    return f'std({k}) is {b}, the variance is {a}'
                some = n > k
                if not np.allclose(a[some], (v * n / (n - k))[some], 1e-4,
                                   1e-30, equal_nan=True):
                    return f'var({k}) is {a}, var(0) {v} of {n} values'
        return None

    def read(self, o):
        return dict(count=o.count(), weights=o.sum_of_weights(),
                    sum=o.sum(), mean=o.mean(), min=o.min(), max=o.max(),
                    var=o.var(), skew=o.skewness(), kurt=o.kurtosis())


class SH(Direct):
    name = 'StreamingHistogram'

    def build(self, v, w):
        return zoo.P().StreamingHistogram(
            v, w, self.axis(), self.sc['bins'] or None,
            np.dtype(self.dtype))

    def read(self, o):
        return dict(count=o.count(), weights=o.sum_of_weights(),
                    mean=o.mean(), min=o.min(), max=o.max(), var=o.var(),
                    skew=o.skewness(), kurt=o.kurtosis())

    skip = H2.skip


TARGETS = {c.name: c for c in (B2, B1, H2, DS, SH)}


def gen_target(r, names=None):
    name = str(r.choice(names or ['Binning2D', 'Binning1D', 'Histogram2D',
                                  'DescriptiveStatistics',
                                  'DescriptiveStatistics',
                                  'StreamingHistogram']))
    sc = dict(target=name, seed=int(r.integers(1 << 30)),
              dtype=str(r.choice(['float64', 'float64', 'float32'])),
              values=str(r.choice(KIND)), weights=bool(r.random() < .35),
              rows=int(r.choice([1, 2, 3, 7, 20, 60])))
    if name in ('DescriptiveStatistics', 'StreamingHistogram'):
        sc['shape'] = [[], [3], [2, 2]][int(r.integers(3))]
        nd = 1 + len(sc['shape'])
        sc['axis'] = None
        if r.random() < .6:
            k = int(r.integers(1, nd + 1))
            sc['axis'] = sorted(int(i) for i in r.permutation(nd)[:k])
            if r.random() < .5 and 0 not in sc['axis']:
                sc['axis'] = sorted(sc['axis'][1:] + [0])
        sc['n'] = sc['rows'] * int(np.prod(sc['shape']))
        sc['form'] = int(r.integers(0, 3))
    else:
        sc['n'] = sc['rows'] * int(r.choice([1, 1, 4]))
        sc.update(nx=int(r.integers(2, 6)), ny=int(r.integers(1, 4)),
                  wgs=bool(r.random() < .2), simple=bool(r.random() < .7),
                  circle=bool(r.random() < .2),
                  range=[.5, 6.] if r.random() < .4 else None)
        sc['rows'] = sc['n']
        if name == 'Histogram2D':
            sc['weights'] = False
            sc['simple'] = True
        if name == 'Binning2D':
            sc['weights'] = False
    sc['bins'] = int(r.choice([0, 0, 2, 3, 8, 200]))
    sc['zeros'] = sc['weights'] and bool(r.random() < .4)
    return sc


def gen_chunks(r, rows, most=8):
    k = int(r.integers(1, min(rows, most) + 1))
    cuts = sorted(r.choice(np.arange(1, rows), k - 1, replace=False).tolist()) \
        if k > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [rows])]


def agree(t, a, b, exact):
    """Merged against single pass."""
    x, y = t.read(a), t.read(b)
    eps = 3e-5 if t.dtype == 'float32' else 1e-10
    ok = np.abs(t.v[~np.isnan(t.v)])
    s = max(float(ok.max()) if len(ok) else 1., 1.)
    n = max(len(t.v), 1)
    tol = dict(mean=s, var=s * s * 10, weights=n * 6, sum=s * n * 6)
    some = np.asarray(y['weights'], 'f8') != 0
    for k in x:
        if k in t.skip:
            continue
        u, v = np.asarray(x[k], 'f8'), np.asarray(y[k], 'f8')
        if u.shape != v.shape:
            return f'{k}: shape {u.shape} instead of {v.shape}'
        if k in ('skew', 'kurt'):
            # as well defined as the variance is
            var = np.asarray(y['var'], 'f8')
            with np.errstate(all='ignore'):
                good = (var > 1e-2 * s * s) & np.isfinite(v)
                bad = good & ~(np.abs(u - v) <= eps * 1e5 * n)
        elif k in ('min', 'max', 'count'):
            bad = ~((u == v) | (np.isnan(u) & np.isnan(v)))
        else:
            with np.errstate(all='ignore'):
                bad = ~((np.abs(u - v) <= eps * tol[k] * 4) |
                        (np.isnan(u) & np.isnan(v)))
            if k in ('mean', 'var'):
                bad &= some
        if bad.any():
            i = tuple(int(q[0]) for q in np.nonzero(bad))
            return f'{k}{i}: {u[i]!r} instead of {v[i]!r} in a single pass'
    return None


FAULTS = ['transfer', 'spill', 'crash-before', 'crash-after', 'duplicate']


class P08(Prop):
    id = 'P08'

    def generate(self, r, index):
        sc = gen_target(r)
        sc['chunks'] = gen_chunks(r, sc['rows'])
        if sc['target'] in ('DescriptiveStatistics', 'StreamingHistogram') \
                and sc['axis'] is not None and 0 not in sc['axis']:
            sc['mode'] = 'dask'
        else:
            sc['mode'] = str(r.choice(['dask', 'merge']))
        sc['faults'] = {f: float(r.choice([0, 0, .1, .4])) for f in FAULTS}
        sc['mseed'] = int(r.integers(1 << 40))
        return sc

    def shrink(self, sc):
        for f in FAULTS:
            if sc['faults'][f]:
                yield dict(sc, faults=dict(sc['faults'], **{f: 0}))
        c = sc['chunks']
        for i in range(len(c) - 1):
            yield dict(sc, chunks=c[:i] + [c[i] + c[i + 1]] + c[i + 2:])
        if sc['weights']:
            yield dict(sc, weights=False)

    def execute(self, sc, out):
        t = TARGETS[sc['target']](sc)
        out.tag('object:' + t.name)
        out.tag('mode:' + sc['mode'])
        single = t.all()
        if sc['mode'] == 'dask':
            got = self.dask(sc, t, out)
        else:
            got = self.merge(sc, t, out)
        if got is None:
            return
        out.nontrivial = len(sc['chunks']) > 1
        kind = f'{t.name} ({sc["mode"]}, {len(sc["chunks"])} parts)'
        d = t.check(got) or agree(t, got, single, False)
        if d:
            out.fail('merged', f'{kind}: {d}')
        d = t.check(single)
        if d:
            out.fail('single-pass', f'{t.name}: {d}')
        if isinstance(t, Binned):
            d = attributes(got, single)
            if d:
                out.fail('attributes', f'{kind}: {d}')
        for k, v in t.read(got).items():
            out.note(zoo.canon(np.asarray(v)))

    def dask(self, sc, t, out):
        import dask.array.core as da
        from dask import cluster
        r = rng_of(sc['mseed'])
        base = None
        if isinstance(t, Binned):
            base = t.blank()
            before = zoo.canon(t.read(base)['count'])

        plain = isinstance(t, Binned) and sc['mseed'] % 4 == 0
        calls = []

        def lazy(a):
            calls.append(a)
            if plain and len(calls) == 2:
                out.tag('a plain array among the lazy ones')
                return a
            return da.from_array(a, sc['chunks'])

        c = cluster.Cluster(r, sc['faults'], int(r.integers(2, 5)))
        with cluster.using(c):
            a = attempt(t.delayed, lazy, base)
            if a[0] == 'ok' and isinstance(a[1], da.Array):
                a = attempt(a[1].compute)
        for k, n in c.stats.items():
            out.tag('fault:' + k, n)
        if a[0] == 'err':
            out.fail('graph', f'{t.name}: {a[1:]}')
            return None
        if base is not None and zoo.canon(t.read(base)['count']) != before:
            out.fail('operand-modified', f'{t.name}.push_delayed changed the '
                     'instance')
        return a[1]

    def merge(self, sc, t, out):
        r = rng_of(sc['mseed'])
        parts, lo = [], 0
        for n in sc['chunks']:
            parts.append(t.part(t.cut(lo, lo + n)))
            lo += n
        if isinstance(t, Binned) and r.random() < .3:
            parts.append(t.blank())
        order = r.permutation(len(parts))
        live = [parts[i] for i in order]
        kept = []  # operands and what they held

        def state(o):
            return zoo.canon([np.asarray(x) for x in t.read(o).values()])

        while len(live) > 1:
            i = int(r.integers(len(live) - 1))
            j = i + 1
            a, b = live[i], live[j]
            k = r.random()
            for n, x in ((i, a), (j, b)):
                u = r.random()
                if u < .15:
                    x = pickle.loads(pickle.dumps(x, int(r.integers(2, 6))))
                    out.tag('fault:restart')
                elif u < .25:
                    x = copy.deepcopy(x)
                elif u < .35 and hasattr(x, 'copy'):
                    y = x.copy()
                    kept.append((x, state(x), 'copy'))
                    x = y
                live[n] = x
            a, b = live[i], live[j]
            sb = state(b)
            if k < .5 and hasattr(a, '__add__'):
                sa = state(a)
                c = attempt(lambda: a + b)
                how = '+'
                kept.append((a, sa, 'left operand of +'))
            elif hasattr(a, '__iadd__'):
                def iadd(a=a, b=b):
                    a += b
                    return a
                c = attempt(iadd)
                how = '+='
            else:
                def iadd2(a=a, b=b):
                    a._instance += b._instance
                    return a
                c = attempt(iadd2)
                how = '+= of the extension'
            out.tag('merge ' + how)
            if c[0] == 'err':
                out.fail('merge-error', f'{t.name} {how}: {c[1:]}')
                return None
            kept.append((b, sb, f'right operand of {how}'))
            live[i:j + 1] = [c[1]]
            for o, s, what in kept:
                if state(o) != s:
                    out.fail('operand-modified', f'{t.name}: {what} changed')
                    return None
        return live[0]


def attributes(a, b):
    """What the object is, apart from what it holds."""
    for n in ('x', 'y', 'wgs', 'dtype'):
        if hasattr(b, n):
            u, v = getattr(a, n), getattr(b, n)
            if n != "dtype" and zoo.canon(u) != zoo.canon(v) or str(
                    getattr(u, "name", 0)) != str(getattr(v, "name", 0)):
                return f'{n}: {u} instead of {v}'
    if hasattr(b, 'range') and a.range() != b.range():
        return f'range: {a.range()} instead of {b.range()}'
    if type(a._instance) is not type(b._instance):
        return f'{type(a._instance)} instead of {type(b._instance)}'
    return None


# ---------------------------------------------------------------------------
class P09(Prop):
    """Histories of a streaming histogram."""
    id = 'P09'

    def generate(self, r, index):
        acts = []
        for _ in range(int(r.integers(1, 14))):
            u = r.random()
            if u < .55:
                acts.append(['push', int(r.integers(1 << 30)),
                             int(r.choice([0, 1, 1, 2, 5, 12, 40])),
                             str(r.choice(KIND + ['tail']))])
            elif u < .7:
                acts.append(['resize', int(r.choice([1, 2, 3, 5, 10, 60]))])
            elif u < .75:
                acts.append(['self'])
            elif u < .8:
                acts.append(['clear'])
            elif u < .92:
                acts.append(['restart', str(r.choice(['p2', 'p4', 'p5',
                                                      'deepcopy']))])
            else:
                acts.append(['merge other', int(r.integers(1 << 30)),
                             int(r.choice([1, 3, 10, 40])),
                             int(r.choice([1, 2, 4, 50]))])
        return dict(dtype=str(r.choice(['float64', 'float64', 'float32'])),
                    weights=bool(r.random() < .3),
                    zeros=bool(r.random() < .4),
                    bins=int(r.choice([1, 2, 3, 5, 20, 100])),
                    grid=bool(r.random() < .4), acts=acts)

    def shrink(self, sc):
        for i in range(len(sc['acts'])):
            yield dict(sc, acts=sc['acts'][:i] + sc['acts'][i + 1:])
        for i, a in enumerate(sc['acts']):
            if a[0] == 'push' and a[2] > 1:
                b = list(sc['acts'])
                b[i] = a[:2] + [a[2] // 2] + a[3:]
                yield dict(sc, acts=b)

    def draw(self, sc, seed, n, kind):
        r = rng_of(seed)
        if kind == 'tail':
            v = np.round(r.standard_cauchy(n) * 4) / 4
            v = np.clip(v, -1e4, 1e4).astype(sc['dtype'])
        else:
            v = values(r, n, sc['dtype'], kind)
        w = weights(r, sc, n) if sc['weights'] and not sc['grid'] else None
        return v, w

    def new(self, sc, v, w, bins):
        dt = np.dtype(sc['dtype'])
        if sc['grid']:
            o = zoo.P().Histogram2D(zoo.C().Axis(np.arange(2) * 2.),
                                    zoo.C().Axis(np.arange(2) * 2.), bins, dt)
            o.push(np.full(len(v), 2.).astype(dt), np.zeros(len(v)).astype(dt), v)
            return o
        return zoo.P().StreamingHistogram(v, w, None, bins, dt)

    def execute(self, sc, out):
        grid = sc['grid']
        name = 'Histogram2D' if grid else 'StreamingHistogram'
        out.tag('object:' + name)
        dt = sc['dtype']
        o = self.new(sc, np.zeros(0, dt), np.zeros(0, dt) if sc['weights']
                     else None, sc['bins'])
        cap = sc['bins']
        v = np.zeros(0, dt)
        w = np.zeros(0, dt)
        squeezed = False
        seen = 0
        for act in sc['acts']:
            do = act[0]
            out.note(str(act))
            if do == 'push':
                a, b = self.draw(sc, act[1], act[2], act[3])
                if grid:
                    o.push(np.full(len(a), 2.).astype(dt),
                           np.zeros(len(a)).astype(dt), a)
                else:
                    o += self.new(sc, a, b, cap)
                b = np.ones(len(a), dt) if b is None else b
                ok = ~np.isnan(a)
                v, w = np.append(v, a[ok]), np.append(w, b[ok])
            elif do == 'merge other':
                a, b = self.draw(sc, act[1], act[2], 'plain')
                other = self.new(sc, a, b, act[3])
                size = self.look(other, grid)[1]
                if grid:
                    if len(v) == 0 and np.any(~np.isnan(a)):
                        cap = act[3]
                    o._instance += other._instance
                else:
                    o += other
                if self.look(other, grid)[1] != size:
                    out.fail('operand-modified', f'{name}: merged operand')
                ok = ~np.isnan(a)
                if len(np.unique(a[ok])) > act[3]:
                    squeezed = True
                b = np.ones(len(a), dt) if b is None else b
                v, w = np.append(v, a[ok]), np.append(w, b[ok])
                out.nontrivial = True
            elif do == 'resize':
                if grid:
                    continue
                cap = act[1]
                o._instance.resize(cap)
            elif do == 'clear':
                if not grid:
                    continue
                o.clear()
                v, w = v[:0], w[:0]
                squeezed = False
            elif do == 'self':
                if len(v) > 1000:
                    continue
                if grid:
                    o._instance += o._instance
                else:
                    o += o
                v, w = np.append(v, v), np.append(w, w)
                out.nontrivial = True
            else:
                o = pickle.loads(pickle.dumps(o, int(act[1][1]))) \
                    if act[1][0] == 'p' else copy.deepcopy(o)
                out.tag('fault:restart')
                out.nontrivial = True
            d = self.invariants(sc, o, v, w, cap, squeezed)
            if d:
                out.fail('invariant', f'{name} after {do}: {d}')
                return

    def look(self, o, grid):
        if grid:
            c = (1, 0)
            q = o.variable
            b = o._instance.histograms()[c]
            b = b[~np.isnan(b['value'])]
            return b, len(b), dict(
                count=q('count')[c], weights=q('sum_of_weights')[c],
                mean=q('mean')[c], min=q('min')[c], max=q('max')[c],
                var=q('variance')[c])
        b = o.bins()[0]
        b = b[:int(o.size()[0])]
        return b, len(b), dict(count=o.count()[0],
                               weights=o.sum_of_weights()[0],
                               mean=o.mean()[0], min=o.min()[0],
                               max=o.max()[0], var=o.var()[0])

    def invariants(self, sc, o, v, w, cap, squeezed):
        bins, size, st = self.look(o, sc['grid'])
        if size > cap:
            return f'{size} bins for a capacity of {cap}'
        m = model(v, w)
        eps = 1e-4 if sc['dtype'] == 'float32' else 1e-10
        if int(st['count']) != m['count']:
            return f'count {st["count"]} instead of {m["count"]}'
        if len(v) == 0:
            return None if size == 0 else f'{size} bins without values'
        s = m['scale']
        if not close(float(st['weights']), m['weights'], eps * m['weights']):
            return f'weights {st["weights"]} instead of {m["weights"]}'
        if not close(float(st['mean']), m['mean'], 10 * eps * s):
            return f'mean {st["mean"]} instead of {m["mean"]}'
        wm, wx = (v * w).min(), (v * w).max()
        if float(st['min']) != wm or float(st['max']) != wx:
            return (f'extrema {st["min"]} {st["max"]} instead of {wm} {wx}')
        if m['weights'] == 0:
            return None
        x = bins['value'].astype('f8')
        if np.any(np.diff(x) < -eps * s):
            return f'bins are not sorted: {x}'
        if x.min() < v.min() - eps * s or x.max() > v.max() + eps * s:
            return f'bins out of the range of the values: {x}'
        if np.any(bins['weight'] < 0):
            return f'weights of bins {bins["weight"]}'
        # merging values never adds variance
        if float(st['var']) > m['var'] + 100 * eps * s * s:
            return f'variance {st["var"]}, {m["var"]} for the values'
        if not squeezed and len(v) <= cap and not sc['weights'] and \
                not close(float(st['var']), m['var'], 100 * eps * s * s) \
                and size == len(v):
            return f'variance {st["var"]} instead of {m["var"]}'
        # quantiles
        if not sc['weights'] or sc['grid']:
            qs = [0., .1, .25, .5, .75, .9, 1.]
            if sc['grid']:
                q = [float(o.variable('quantile', a)[1, 0]) for a in qs]
            else:
                q = [float(o.quantile(a)[0]) for a in qs]
            t = 10 * eps * s
            if q[0] < v.min() - t or q[-1] > v.max() + t or \
                    any(b < a - t for a, b in zip(q, q[1:])) or \
                    any(a != a for a in q):
                return f'quantiles {q} of values in [{v.min()}, {v.max()}]'
            if abs(q[0] - v.min()) > t or abs(q[-1] - v.max()) > t:
                return f'extreme quantiles {q[0]}, {q[-1]} instead of ' \
                    f'{v.min()}, {v.max()}'
        return None
