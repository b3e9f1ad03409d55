"""P22: what the grids and the axes answer."""
import copy
import pickle

import numpy as np

import ops
import simrt
import zoo
from harness import Prop, attempt, sched, shrink_sched
from ops import rng_of

from .faults import BAD
from .parallel import report_races

EDGE = 1e-9
NAMES = [('lon', 'lat', 'time', 'depth'), ('x', 'y', 'z', 'u'),
         ('longitude', 'latitude', 'level', 'member'),
         ('d0', 'd1', 'd2', 'd3')]
GIVEN = {'float64': ['i8', 'u8', '>f8', '>i8', '>u8'],
         'float32': ['i4', 'u4', 'i2', 'u2', '>f4', '>i2', '>u4']}
MODELS = {'linear': 2, 'polynomial': 3, 'c_spline': 4, 'c_spline_periodic': 2,
          'akima': 5, 'akima_periodic': 5, 'steffen': 3}


# ---------------------------------------------------------------------------
# Reference models: where a coordinate is
class Line:
    """Points of an axis."""

    def __init__(self, v, circle=False, angle=False):
        self.v = np.asarray(v)
        self.circle = circle
        self.angle = angle or circle
        n = len(self.v)
        self.up = n < 2 or bool(self.v[0] < self.v[1])

    def step(self, a, b):
        """Length of the way from a to b, in the direction of the axis."""
        d = b - a if self.up else a - b
        return d % 360. if self.angle else d

    def cells(self, q):
        """[(i, j, part of the way from i to j)] for the cells that may hold
        the coordinate, and whether it is clear that there is one."""
        v, n = self.v, len(self.v)
        if q != q or n < 2:
            return [], True
        out = []
        clear = False
        for i in range(n if self.circle else n - 1):
            j = (i + 1) % n
            d = self.step(v[i], v[j])
            w = self.step(v[i], q)
            if self.angle and w > 360 - EDGE:
                w -= 360.
            tol = 0 if isinstance(d, (int, np.integer)) else \
                EDGE * max(1., abs(float(d)))
            if -tol <= w <= d + tol:
                out.append((i, j, min(max(float(w) / float(d), 0.), 1.)))
                clear |= tol <= w <= d - tol or self.circle or tol == 0
        if not clear and q in v.tolist():
            clear = True
        return out, clear or not out

    def window(self, i, half):
        """Indexes and coordinates of `half` points on each side of the cell
        (i, i + 1), None when there are not enough points."""
        n = len(self.v)
        if half == 1 and n == 1:
            return [0, 0], np.array([self.v[0], self.v[0]])
        ids = list(range(i - half + 1, i + half + 1))
        if not self.circle:
            if ids[0] < 0 or ids[-1] >= n:
                return None
        else:
            ids = [k % n for k in ids]
        at = [0.]
        for a, b in zip(ids, ids[1:]):
            at.append(at[-1] + float(self.step(self.v[a], self.v[b])))
        return ids, np.array(at)


def haversine(lon0, lat0, lon1, lat1):
    a, b = np.radians(lat0), np.radians(lat1)
    d = np.radians(lon1 - lon0)
    return np.sin((b - a) / 2)**2 + np.cos(a) * np.cos(b) * np.sin(d / 2)**2


# ---------------------------------------------------------------------------
# Reference models: the surface
def surface(method, p, t, u, q, lon, lat, at):
    """Values accepted for a cell.  q[i][j]: values of the corners."""
    w = np.array([[(1 - t) * (1 - u), (1 - t) * u], [t * (1 - u), t * u]])
    if method == 'bilinear':
        out = [float((w * q).sum())]
        if np.isnan(q).any() and not np.isnan(q[w > EDGE]).any():
            out.append(float(np.nansum(w * q)))
        return out
    h = np.array([[haversine(lon[i], lat[j], *at) for j in (0, 1)]
                  for i in (0, 1)])
    if method == 'nearest':
        return [float(z) for z in q[h <= h.min() + 1e-13]]
    d = 2 * np.arcsin(np.sqrt(np.minimum(h, 1)))
    if d.min() < 1e-11:
        k = np.unravel_index(d.argmin(), d.shape)
        return [float(q[k]), np.nan] if np.isnan(q).any() else [float(q[k])]
    # the lengths are compared to the smallest one: their powers are not
    # always representable
    w = (d.min() / d)**float(p)
    return [float((w * q).sum() / w.sum())]


def mix(method, t, a, b):
    """Values accepted along an axis."""
    if method == 'nearest':
        if abs(t - .5) < 1e-9:
            return a + b
        return a if t < .5 else b
    out = []
    for x in a:
        for y in b:
            out.append((1 - t) * x + t * y)
            if t < EDGE:
                out.append(x)
            if t > 1 - EDGE:
                out.append(y)
    return out


# ---------------------------------------------------------------------------
# Reference models: curves
def natural(x, y):
    """Second derivatives / 2 of the natural spline."""
    n = len(x)
    h, d = np.diff(x), np.diff(y)
    a = np.eye(n)
    b = np.zeros(n)
    for i in range(1, n - 1):
        a[i, i - 1:i + 2] = h[i - 1], 2 * (h[i - 1] + h[i]), h[i]
        b[i] = 3 * (d[i] / h[i] - d[i - 1] / h[i - 1])
    return np.linalg.solve(a, b)


def periodic(x, y):
    n = len(x) - 1
    h, d = np.diff(x), np.diff(y)
    a = np.zeros((n, n))
    b = np.zeros(n)
    for i in range(1, n + 1):
        p, q = h[i - 1], h[i % n]
        a[i - 1, (i - 1) % n] += 0
        a[i - 1, (i - 2) % n] += p
        a[i - 1, i - 1] += 2 * (p + q)
        a[i - 1, i % n] += q
        b[i - 1] = 3 * (d[i % n] / q - d[i - 1] / p)
    c = np.linalg.solve(a, b)
    return np.concatenate([[c[-1]], c])


def akima(x, y, around):
    n = len(x)
    m = np.diff(y) / np.diff(x)
    if around:
        m = np.concatenate([m[-2:], m, m[:2]])
    else:
        m = np.concatenate([[3 * m[0] - 2 * m[1], 2 * m[0] - m[1]], m,
                            [2 * m[-1] - m[-2], 3 * m[-1] - 2 * m[-2]]])
    s = np.empty(n)
    for i in range(n):
        a, b = abs(m[i + 3] - m[i + 2]), abs(m[i + 1] - m[i])
        s[i] = (a * m[i + 1] + b * m[i + 2]) / (a + b) if a + b else \
            (m[i + 1] + m[i + 2]) / 2
    return s


def steffen(x, y):
    h = np.diff(x)
    s = np.diff(y) / h
    out = np.empty(len(x))
    out[0], out[-1] = s[0], s[-1]
    for i in range(1, len(x) - 1):
        p = (s[i - 1] * h[i] + s[i] * h[i - 1]) / (h[i - 1] + h[i])
        out[i] = 0 if s[i - 1] * s[i] <= 0 else np.sign(s[i]) * 2 * min(
            abs(s[i - 1]), abs(s[i]), abs(p) / 2)
    return out


def curve(kind, x, y, k, q):
    """Value at q, in the interval k, and the magnitude of the terms."""
    h = x[k + 1] - x[k]
    t = q - x[k]
    d = (y[k + 1] - y[k]) / h
    scale = np.abs(y).max()
    if kind == 'linear':
        return y[k] + d * t, scale
    if kind == 'polynomial':
        w = np.array([np.prod([(q - x[j]) / (x[i] - x[j])
                               for j in range(len(x)) if j != i])
                      for i in range(len(x))])
        return float((w * y).sum()), np.abs(w * y).sum() + scale
    if kind in ('c_spline', 'c_spline_periodic'):
        c = (natural if kind == 'c_spline' else periodic)(x, y)
        b = d - h * (c[k + 1] + 2 * c[k]) / 3
        return y[k] + t * (b + t * (c[k] + t * (c[k + 1] - c[k]) / 3 / h)), \
            scale + np.abs(c).max() * h * h
    s = steffen(x, y) if kind == 'steffen' else \
        akima(x, y, kind == 'akima_periodic')
    a = (s[k] + s[k + 1] - 2 * d) / h / h
    b = (3 * d - 2 * s[k] - s[k + 1]) / h
    return y[k] + t * (s[k] + t * (b + t * a)), scale + np.abs(s).max() * h


def near(got, want, tol):
    if want != want:
        return got != got
    return abs(got - want) <= tol


# ---------------------------------------------------------------------------
# Axes of the scenarios
def points_of(p, seed):
    """Coordinates of an axis, and whether they are angles."""
    r = rng_of(seed)
    n, kind = p['n'], p['kind']
    if kind in ('circle', 'arc'):
        share = 360. if kind == 'circle' else 200.
        v = np.arange(n) * (share / n)
        if p['irregular'] and n > 3:
            v = v + r.uniform(0, .4 * share / n, n)
        v = v + p['start']
        # between 0 and 360, or between -180 and 180
        v = (v - p['lo']) % 360. + p['lo']
        whole = np.sort(v)
        if p['down']:
            v, whole = v[::-1], whole[::-1]
        # the direction is the one of the first two points
        if n > 1 and (not p['roll'] or (v[1] > v[0]) == p['down']):
            v = whole
        return v.copy(), True
    if kind == 'time':
        v = np.arange(n) * int(r.choice([1, 3, 86400, 10**9, 86400 * 10**9])) \
            if not p['irregular'] else \
            np.cumsum(r.integers(1, 10**int(r.integers(1, 14)), n))
        v = v + int(r.choice([0, 0, -10**6, 10**15]))
    else:
        v = np.arange(n) * float(r.choice([.25, 1, 3])) - 20. \
            if not p['irregular'] else np.cumsum(r.uniform(.2, 4, n)) - 20.
    if p['down']:
        v = v[::-1].copy()
    return v, False


def axis_of(p, seed):
    """The axis, and its model."""
    v, angle = points_of(p, seed)
    C = zoo.C()
    if p['kind'] == 'time':
        return C.TemporalAxis(v.astype(f'M8[{p["unit"]}]')), Line(v)
    line = Line(v, angle=angle)
    if angle and len(v) > 1:
        # the axis covers the circle when the way from its last point to its
        # first one is a step, or is not longer than its irregular steps
        steps = np.array([line.step(a, b) for a, b in zip(v, v[1:])])
        gap = 360. - steps.sum()
        line.circle = bool(abs(gap - steps[0]) < 1e-5 if np.ptp(steps) < 1e-7
                           else gap <= steps.mean() + 1e-7)
        far = v[0] + (1 if line.up else -1) * np.concatenate(
            [[0.], np.cumsum(steps)])
        line.v = v + 360. * np.round((far - v) / 360.)
    return C.Axis(v, is_circle=angle), line


def gen_axis(r, kinds, sizes):
    return dict(kind=str(r.choice(kinds)), n=int(r.choice(sizes)),
                irregular=bool(r.random() < .4), down=bool(r.random() < .25),
                start=float(r.choice([0, 0, .5, -180, 17.25, 100])),
                lo=float(r.choice([0, -180])), roll=bool(r.random() < .4),
                unit=str(r.choice(['ns', 's', 'ms', 'us'])))


def queries(line, r, n, far=.15):
    """Coordinates: on the points, in the cells, outside."""
    v = line.v
    m = len(v)
    k = r.integers(0, m, n)
    part = r.random(n)
    nxt = v[(k + 1) % m]
    if line.v.dtype.kind == 'i':
        d = nxt - v[k]
        q = v[k] + (d * np.round(part * 8) / 8).astype('i8')
        q[part < .2] = v[k[part < .2]]
        away = r.random(n) < far
        lo, hi = v.min(), v.max()
        q[away] = np.where(r.random(away.sum()) < .5, lo - 1, hi + 1)
        return q
    step = np.array([line.step(a, b) for a, b in zip(v[k], nxt)]) if m > 1 \
        else np.ones(n)
    if not line.circle:
        step = np.where(k == m - 1, 0., step)
    q = v[k] + (1 if line.up else -1) * step * np.where(
        part < .2, 0, np.where(part < .3, 1, np.where(
            part < .45, np.round(part * 40) / 40 % 1, r.random(n))))
    if line.angle:
        q = q + 360. * r.integers(-2, 3, n)
        # rounding moves them around the points
        k = part < .2
        q[k] = q[k] + np.spacing(q[k]) * r.integers(-2, 3, int(k.sum()))
    away = r.random(n) < far
    if not line.circle:
        span = abs(v[-1] - v[0]) + 1
        q[away] = np.where(r.random(away.sum()) < .5, v.min() - .3 * span,
                           v.max() + .3 * span)
        near_ = r.random(n) < .05
        q[near_] = v.max() + .01
    q[r.random(n) < .04] = np.nan
    return q


UNITS = dict(ns=1, us=10**3, ms=10**6, s=10**9, m=60 * 10**9,
             h=3600 * 10**9, D=86400 * 10**9)


def dates(q, unit, given, r):
    """Dates given in another unit than the one of the axis, and what they
    are on the axis."""
    u, g = UNITS[unit], UNITS[given or unit]
    if u > g:
        # the axis does not see the rest
        k = u // g
        if not len(q) or np.abs(q).max() < 2**62 // k:
            return q, (q * k + r.integers(0, k, len(q))).astype(
                f'M8[{given}]')
        given = None
    elif u < g:
        k = g // u
        v = q // k
        return v * k, v.astype(f'M8[{given}]')
    return q, q.astype(f'M8[{unit}]')


# ---------------------------------------------------------------------------
class P22(Prop):
    id = 'P22'
    races = True

    def generate(self, r, index):
        dim = int(r.choice([2, 2, 3, 3, 4]))
        axes = [gen_axis(r, ['circle', 'circle', 'circle', 'arc', 'plain'],
                         [2, 3, 4, 6, 9, 12, 12, 31, 77]),
                gen_axis(r, ['plain'], [1, 2, 3, 5, 8, 10])]
        if dim > 2:
            axes.append(gen_axis(r, ['time', 'plain'], [1, 2, 3, 5]))
        if dim > 3:
            axes.append(gen_axis(r, ['plain'], [1, 2, 3]))
        sc = dict(dim=dim, axes=axes, seed=int(r.integers(1 << 30)),
                  dtype=str(r.choice(['float64', 'float64', 'float32', 'int8',
                                      'uint8'] if dim == 2 else
                                     ['float64', 'float64', 'float32'])),
                  nan=float(r.choice([0, 0, .1, .4])),
                  order=str(r.choice(['C', 'F', 'step'])),
                  inc=str(r.choice(['', '', 'inplace', 'copy'])),
                  sched=sched(r), steps=[])
        if sc['dtype'][0] == 'f' and r.random() < .25:
            # values of another type, which are converted
            sc['given'] = str(r.choice(GIVEN[sc['dtype']]))
            if sc['given'][-2] != 'f':
                sc['nan'] = 0.
        if r.random() < .15:
            # the same axis for two dimensions
            a, b = sorted(int(k) for k in r.permutation(dim)[:2])
            axes[a]['kind'] = 'plain'
            sc['same'] = [a, b]
            axes[b].update(axes[a])
        elif r.random() < .25:
            # a labelled array
            sc['array'] = dict(dims=[int(k) for k in r.permutation(dim)],
                               coords=[int(k) for k in r.permutation(dim)],
                               process=int(r.integers(1 << 30)),
                               names=int(r.integers(0, 4)),
                               wrap=bool(r.random() < .5))
            sc['inc'] = str(r.choice(['', 'inplace']))
        for _ in range(int(r.integers(1, 6))):
            do = str(r.choice(['poke', 'poke', 'restart', 'copy', 'bad',
                               'ask', 'ask', 'ask', 'spline', 'spline',
                               'axis']))
            sc['steps'].append(self.gen_step(r, do))
        sc['steps'].append(self.gen_step(
            r, str(r.choice(['ask', 'ask', 'ask', 'spline', 'spline', 'axis',
                             'curve', 'bins', 'codes', 'turns', 'turns']))))
        return sc

    def gen_step(self, r, do):
        s = dict(do=do, seed=int(r.integers(1 << 30)))
        if do == 'poke':
            s['at'] = float(r.random())
        if do == 'ask':
            s.update(method=str(r.choice(['bilinear', 'bilinear', 'nearest',
                                          'inverse_distance_weighting'])),
                     p=int(r.choice([0, 0, 1, 2, 3])),
                     z=str(r.choice(['', 'linear', 'nearest'])),
                     u=str(r.choice(['', 'linear', 'nearest'])))
        if do == 'spline':
            s.update(model=str(r.choice(['bicubic', 'bicubic'] +
                                        list(MODELS))),
                     nx=int(r.integers(1, 6)), ny=int(r.integers(1, 6)),
                     boundary=str(r.choice(['undef', 'undef', 'expand',
                                            'wrap', 'sym'])))
        if do == 'curve':
            s.update(model=str(r.choice(list(MODELS))),
                     half=int(r.integers(1, 8)),
                     axis=gen_axis(r, ['plain'], [2, 3, 5, 9, 14]))
            s['axis']['down'] = False
        if do == 'bins':
            s.update(kind=str(r.choice(['nearest', 'linear', 'histogram',
                                        'line'])), dtype='float64')
        if do == 'codes':
            s.update(precision=int(r.choice([1, 1, 2])),
                     box=bool(r.random() < .5),
                     dtype=str(r.choice(['float64', 'float32'])))
        if do in ('ask', 'spline', 'bad', 'axis') and r.random() < .4:
            s['unit'] = str(r.choice(list(UNITS)))
        if do in ('ask', 'spline', 'curve', 'bad', 'axis', 'bins', 'codes',
                  'turns'):
            s.update(size=int(r.choice([0, 1, 3, 7, 12])),
                     threads=int(r.choice([0, 1, 1, 2, 3, 5])),
                     bounds=bool(r.random() < .2),
                     far=float(r.choice([0, 0, .15])))
            u = r.random()
            if u < .15:
                s['alloc'] = int(r.integers(0, 30))
            elif u < .3:
                at = int(r.integers(0, 5))
                s['refuse'] = [at, at + int(r.choice([1, 1 << 40]))]
        return s

    def shrink(self, sc):
        for k in range(len(sc['steps'])):
            if len(sc['steps']) > 1:
                yield dict(sc, steps=sc['steps'][:k] + sc['steps'][k + 1:])
        for k, s in enumerate(sc['steps']):
            def put(s):
                return dict(sc, steps=sc['steps'][:k] + [s] +
                            sc['steps'][k + 1:])
            for f in ('alloc', 'refuse', 'unit'):
                if f in s:
                    yield put({a: b for a, b in s.items() if a != f})
            if s.get('size', 0) > 1:
                yield put(dict(s, size=s['size'] - 1))
            if s.get('threads', 0) > 1:
                yield put(dict(s, threads=s['threads'] - 1))
            if s.get('far'):
                yield put(dict(s, far=0.))
        if 'array' in sc:
            a = sc['array']
            order = sorted(a['dims'])
            for f, v in (('dims', order), ('coords', order), ('names', 0),
                         ('wrap', False)):
                if a[f] != v:
                    yield dict(sc, array=dict(a, **{f: v}))
        for k, a in enumerate(sc['axes']):
            for f, v in (('irregular', False), ('down', False), ('start', 0.),
                         ('roll', False), ('kind', 'plain')):
                if a[f] != v:
                    yield dict(sc, axes=sc['axes'][:k] + [dict(a, **{f: v})] +
                               sc['axes'][k + 1:])
            if a['n'] > 2:
                yield dict(sc, axes=sc['axes'][:k] +
                           [dict(a, n=a['n'] - 1)] + sc['axes'][k + 1:])
        if sc['nan']:
            yield dict(sc, nan=0.)
        if 'given' in sc:
            yield {a: b for a, b in sc.items() if a != 'given'}
        if sc['order'] != 'C':
            yield dict(sc, order='C')
        if sc['inc']:
            yield dict(sc, inc='')
        yield from shrink_sched(sc)

    # -- the grid and its model
    def build(self, sc, out):
        P = zoo.P()
        r = rng_of(sc['seed'])
        pairs = [axis_of(a, sc['seed'] + 7 * k)
                 for k, a in enumerate(sc['axes'])]
        if 'same' in sc:
            a, b = sc['same']
            pairs[b] = pairs[a]
            out.tag('axis given twice')
        shape = tuple(len(m.v) for _, m in pairs)
        v = r.normal(size=shape) * 10
        if sc['dtype'] in ('int8', 'uint8'):
            v = np.abs(v).round()
        elif sc['nan']:
            v[r.random(shape) < sc['nan']] = np.nan
        given = np.dtype(sc.get('given', sc['dtype']))
        if given.kind == 'u':
            v = np.abs(v)
        if given.kind in 'iu':
            v = v.round()
        v = v.astype(given)
        base = v
        if sc['order'] == 'F':
            base = np.asfortranarray(v)
        elif sc['order'] == 'step':
            big = np.full([2 * n + 1 for n in shape], 77, v.dtype)
            base = big[tuple(slice(0, 2 * n, 2) for n in shape)]
            base[...] = v
        lines = [m for _, m in pairs]
        self.labels = self.wrap = None
        if 'given' in sc:
            out.tag('values converted')
        if 'array' in sc:
            grid, v = self.labelled(sc, lines, base, out)
        else:
            kw = dict(increasing_axes=sc['inc']) if sc['inc'] else {}
            cls = getattr(P, f'Grid{sc["dim"]}D')
            grid = cls(*[a for a, _ in pairs], base, **kw)
        if sc['inc']:
            for k, m in enumerate(lines):
                if not m.up:
                    lines[k] = Line(m.v[::-1], m.circle, m.angle)
                    v = np.flip(v, k)
        return grid, lines, v.astype(sc['dtype'])

    def labelled(self, sc, lines, base, out):
        """The grid of a labelled array: the longitudes and the latitudes
        first, then the time, then the others in their order."""
        from pyinterp.backends import xarray as backend
        a = sc['array']
        out.tag('labelled array')
        ops.Name.process = a['process']
        names = [ops.Name(n) for n in NAMES[a['names']][:sc['dim']]]
        # (position, points) in the order of the coordinates
        flat = sc['axes'][0]['kind'] == 'plain'
        order = sorted(a['coords']) if flat else a['coords']
        points = []
        for k in order:
            p = sc['axes'][k]
            v = points_of(p, sc['seed'] + 7 * k)[0]
            points.append((k, v.astype(f'M8[{p["unit"]}]')
                           if p['kind'] == 'time' else v))
        units = ['', '', '', ''] if flat else [
            ['degrees_east', 'degree_E', 'degreesE'][a['names'] % 3],
            ['degrees_north', 'degree_N', 'degreesN'][a['names'] % 3],
            'm', '']
        array = ops.data_array(points, base, a['dims'], names, units)
        kw = dict(increasing_axes=bool(sc['inc']), geodetic=not flat)
        if a['wrap']:
            self.wrap = backend.RegularGridInterpolator(array, **kw)
            grid = self.wrap.grid
        else:
            cls = getattr(backend, f'Grid{sc["dim"]}D')
            grid = cls(array, **kw)
        if sc['dim'] == 4 and sc['axes'][2]['kind'] != 'time' and \
                a['dims'].index(2) > a['dims'].index(3):
            # the third axis of the grid is the first one of the array
            lines[2], lines[3] = lines[3], lines[2]
            names[2], names[3] = names[3], names[2]
            base = np.swapaxes(base, 2, 3)
        self.labels = names
        return grid, base.copy()

    def unwrap(self, o):
        if self.wrap:
            self.wrap = o
            return o.grid
        return o

    def execute(self, sc, out):
        grid, lines, v = self.build(sc, out)
        for s in sc['steps']:
            do = s['do']
            out.tag('step:' + do)
            if do == 'poke':
                at = np.unravel_index(int(s['at'] * v.size), v.shape)
                x = rng_of(s['seed']).normal() * 10
                if v.dtype.kind != 'f':
                    x = abs(round(x))
                grid.array[at] = x
                v[at] = x
            elif do == 'restart':
                saved = pickle.dumps(self.wrap or grid)
                ops.Name.process += 1
                grid = self.unwrap(pickle.loads(saved))
                out.nontrivial = True
            elif do == 'copy':
                old = grid
                grid = self.unwrap(copy.deepcopy(self.wrap or grid))
                old.array[...] = 0
            else:
                getattr(self, do)(sc, s, grid, lines, v, out)
            if out.viol:
                return
            if grid.array.dtype != v.dtype:
                out.fail('values', f'{grid.array.dtype} values instead of '
                         f'{v.dtype}')
                return
            if not np.array_equal(grid.array, v, equal_nan=v.dtype.kind
                                  == 'f'):
                out.fail('values', f'{do}: the values of the grid are not '
                         'those written')
                return

    def call(self, sc, s, out, fn, what):
        fault = {}
        if 'refuse' in s:
            fault['threads'] = tuple(s['refuse'])
        if 'alloc' in s:
            fault['allocs'] = (s['alloc'], s['alloc'] + 1)
        before = int(simrt.shared.alloc_fail), int(simrt.shared.thread_fail)
        with simrt.session(simrt.make_config(sc['sched'], fault)):
            if 'alloc' in s:
                simrt.lib.sim_alloc_window(1)
            try:
                a = attempt(fn)
            finally:
                if 'alloc' in s:
                    simrt.lib.sim_alloc_window(0)
        report_races(out, what, BAD)
        if simrt.shared.status == 3:
            out.fail('leaked-thread', f'{what}: a thread outlives the call')
        fired = int(simrt.shared.alloc_fail) - before[0] + \
            int(simrt.shared.thread_fail) - before[1]
        if fired:
            out.tag('fault:memory refused' if 'alloc' in s else
                    'fault:thread refused', fired)
            out.nontrivial = True
        out.nontrivial |= s['threads'] != 1
        out.note((what, a[0], fired))
        if a[0] == 'ok' and isinstance(a[1], np.ndarray):
            out.note(a[1].tobytes())
        return a, fired

    def coordinates(self, sc, s, lines):
        r = rng_of(s['seed'])
        q = [queries(m, r, s['size'], s['far']) for m in lines]
        if sc['dim'] > 2 and sc['axes'][2]['kind'] == 'time':
            q[2], self.dates = dates(q[2], sc['axes'][2]['unit'],
                                     s.get('unit'), r)
        return q

    def positions(self, sc, s, q):
        """The coordinates with the names of their dimensions."""
        at = list(zip(self.labels, q))
        if sc['dim'] > 2 and sc['axes'][2]['kind'] == 'time':
            at[2] = at[2][0], self.dates
        # in any order, with names that are other objects
        order = rng_of(s['seed'] + 1).permutation(len(at))
        return {ops.Name(str(at[k][0])): at[k][1] for k in order}

    def given(self, sc, grid, q):
        """The arguments of the call."""
        out = list(q)
        if sc['dim'] > 2 and sc['axes'][2]['kind'] == 'time':
            out[2] = grid.z.safe_cast(self.dates)
        return out

    def judge(self, what, a, fired, s, want, out):
        """want: for each query, a list of (value, tolerance), or None when
        the coordinate is outside; 'any' when it is not decided."""
        outside = [w is None for w in want]
        if a[0] == 'err':
            if fired:
                return
            if s['bounds'] and a[1] in ('ValueError', 'IndexError') and any(
                    w is None or w == 'any' or any(x is None for x, _ in w)
                    for w in want):
                out.tag('refused')
                return
            out.fail('error', f'{what}: {a[1:]}')
            return
        got = a[1]
        if got.shape != (len(want), ):
            out.fail('shape', f'{what}: {got.shape} for {len(want)} '
                     'coordinates')
            return
        if s['bounds'] and any(outside):
            out.fail('bounds', f'{what}: the coordinate '
                     f'{outside.index(True)} outside is accepted')
            return
        for k, w in enumerate(want):
            g = float(got[k])
            if w is None:
                if g == g:
                    out.fail('outside', f'{what}: coordinate {k} is outside, '
                             f'the value is {g}')
                    return
            elif w != 'any':
                out.tag('compared')
                if not any((g != g) if x is None else near(g, x, t)
                           for x, t in w):
                    out.fail('value', f'{what}: coordinate {k}: {g}, '
                             f'expected {w[:3]}')
                    return

    # -- queries
    def ask(self, sc, s, grid, lines, v, out):
        P = zoo.P()
        dim = sc['dim']
        q = self.coordinates(sc, s, lines)
        kw = dict(interpolator=s['method'], bounds_error=s['bounds'],
                  num_threads=s['threads'])
        p = 2
        if s['method'].startswith('inv') and s['p']:
            p = kw['p'] = s['p']
        if dim > 2 and s['z']:
            kw['z_method'] = s['z']
        if dim > 3 and s['u']:
            kw['u_method'] = s['u']
        fn = {2: P.bivariate, 3: P.trivariate, 4: P.quadrivariate}[dim]
        what = f'{fn.__name__} {kw}'
        if self.labels:
            at = self.positions(sc, s, q)
            if self.wrap:
                kw['method'] = kw.pop('interpolator')
                fn = self.wrap
            else:
                fn = getattr(grid, fn.__name__)
            a, fired = self.call(sc, s, out, lambda: fn(at, **kw), what)
        else:
            args = self.given(sc, grid, q)
            a, fired = self.call(sc, s, out, lambda: fn(grid, *args, **kw),
                                 what)
        want = [self.value(s, p, lines, v, [c[k] for c in q])
                for k in range(s['size'])]
        self.judge(what, a, fired, s, want, out)

    def turns(self, sc, s, grid, lines, v, out):
        """The points of the grid, some turns away."""
        P = zoo.P()
        r = rng_of(s['seed'])
        x = lines[0]
        n = len(x.v)
        k = np.repeat(np.arange(n), 25)
        qx = x.v[k]
        if x.angle:
            qx = qx + 360. * r.integers(-4, 5, len(k))
            qx = qx + np.spacing(qx) * r.integers(-1, 2, len(k))
        index, q = [k], [qx]
        for m in lines[1:]:
            j = r.integers(0, len(m.v), len(k))
            index.append(j)
            q.append(m.v[j])
        fn = {2: P.bivariate, 3: P.trivariate, 4: P.quadrivariate}[sc['dim']]
        if sc['dim'] > 2 and sc['axes'][2]['kind'] == 'time':
            self.dates = q[2].astype(f'M8[{sc["axes"][2]["unit"]}]')
        what = f'{fn.__name__} on the points'
        args = self.given(sc, grid, q)
        a, fired = self.call(sc, s, out, lambda: fn(
            grid, *args, num_threads=s['threads']), what)
        if a[0] == 'err':
            if not fired:
                out.fail('error', f'{what}: {a[1:]}')
            return
        want = v[tuple(index)].astype('f8')
        got = a[1].astype('f8')
        tol = 1e-7 * max(1., np.nanmax(np.abs(v)) if
                         not np.isnan(v.astype('f8')).all() else 1)
        bad = ~(np.abs(got - want) <= tol) & ~np.isnan(want)
        # the neighbours, whose weight is null, may be undefined
        some = np.isnan(v.astype('f8')).any() or any(
            len(m.v) == 1 for m in lines)
        lost = np.isnan(got)
        if some:
            bad &= ~lost
        elif not x.circle:
            bad &= ~(lost & ((k == 0) | (k == n - 1)))
        out.tag('compared', len(k))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            out.fail('value', f'{what}: {got[i]} at {qx[i]!r}, whose value '
                     f'is {want[i]}')

    def value(self, s, p, lines, v, at):
        found = [m.cells(c) for m, c in zip(lines, at)]
        if any(not cells for cells, _ in found):
            return None
        wide = v.astype('f8')
        tol = 1e-7 * max(1., np.nanmax(np.abs(wide)) if
                         not np.isnan(wide).all() else 1)
        out = []
        if not all(clear for _, clear in found):
            out.append((None, 0))

        def level(index, k):
            """Values accepted above the axes k, k + 1..."""
            if k == len(lines):
                (i0, i1, t), (j0, j1, u) = cell
                c = wide[(slice(None), slice(None)) + index]
                x, y = lines[0].v, lines[1].v
                return surface(s['method'], p, t, u,
                               c[np.ix_([i0, i1], [j0, j1])],
                               (x[i0], x[i1]), (y[j0], y[j1]),
                               (at[0], at[1]))
            got = []
            for i, j, t in found[k][0]:
                got += mix(s['z' if k == 2 else 'u'], t,
                           level(index + (i, ), k + 1),
                           level(index + (j, ), k + 1))
            return got

        for cx in found[0][0]:
            for cy in found[1][0]:
                cell = cx, cy
                # the last axis is the outermost level
                out += [(x, tol) for x in level((), 2)]
        return out

    def spline(self, sc, s, grid, lines, v, out):
        P = zoo.P()
        if v.dtype.kind != 'f':
            return
        q = self.coordinates(sc, s, lines)
        kw = {}
        if not self.labels:
            args = self.given(sc, grid, q)
            kw = dict(zip('zu', args[2:]))
        kw.update(nx=s['nx'], ny=s['ny'], fitting_model=s['model'],
                  boundary=s['boundary'], bounds_error=s['bounds'],
                  num_threads=s['threads'])
        what = 'bicubic ' + str({k: kw[k] for k in (
            'nx', 'ny', 'fitting_model', 'boundary', 'bounds_error',
            'num_threads')})
        if self.labels:
            at = self.positions(sc, s, q)
            if self.wrap:
                kw = dict(method='bicubic', bounds_error=kw.pop(
                    'bounds_error'), num_threads=kw.pop('num_threads'),
                    bicubic_kwargs=kw)
            fn = self.wrap or grid.bicubic
            a, fired = self.call(sc, s, out, lambda: fn(at, **kw), what)
        else:
            a, fired = self.call(sc, s, out, lambda: P.bicubic(
                grid, args[0], args[1], **kw), what)
        if not (lines[0].up and lines[1].up):
            if a[0] == 'ok':
                out.fail('descending', f'{what}: descending axes accepted')
            return
        model = 'c_spline' if s['model'] == 'bicubic' else s['model']
        want = [self.fit(s, model, lines, v, [c[k] for c in q])
                for k in range(s['size'])]
        small = 2 * min(s['nx'], s['ny']) < MODELS[model]
        if small and a[0] == 'err' and a[1] == 'ValueError':
            if any(w is not None for w in want) or s['bounds']:
                out.tag('refused')
                return
        if small and a[0] == 'ok' and any(
                w not in (None, 'any') and w[0][0] is not None
                for w in want):
            out.fail('window', f'{what}: {s["nx"]}, {s["ny"]} accepted')
            return
        self.judge(what, a, fired, s, want, out)

    def fit(self, s, model, lines, v, at):
        found = [m.cells(c) for m, c in zip(lines, at)]
        for k in range(2, len(lines)):
            if len(lines[k].v) == 1 and at[k] == lines[k].v[0]:
                found[k] = [(0, 0, 0.)], True
        for k, half in ((0, s['nx']), (1, s['ny'])):
            # the window of a single point
            if len(lines[k].v) == 1:
                return 'any'
        if any(not cells for cells, _ in found):
            return None
        out = []
        if not all(clear for _, clear in found):
            out.append((None, 0))
        wide = v.astype('f8')
        big = max(1., np.nanmax(np.abs(wide)) if
                  not np.isnan(wide).all() else 1)
        for i, _, t in found[0][0]:
            if lines[0].circle and 2 * s['nx'] > len(lines[0].v):
                return 'any'
            wx = lines[0].window(i, s['nx'])
            for j, _, u in found[1][0]:
                wy = lines[1].window(j, s['ny'])
                if wx is None or wy is None:
                    if s['boundary'] != 'undef':
                        return 'any'
                    out.append((None, 0))
                    continue
                if 2 * min(s['nx'], s['ny']) < MODELS[model]:
                    return 'any'
                xs = wx[1][s['nx'] - 1] + t * (
                    wx[1][s['nx']] - wx[1][s['nx'] - 1])
                ys = wy[1][s['ny'] - 1] + u * (
                    wy[1][s['ny']] - wy[1][s['ny'] - 1])
                c = wide[np.ix_(wx[0], wy[0])]
                if (s['nx'] == 1 and min(t, 1 - t) < EDGE) or \
                        (s['ny'] == 1 and min(u, 1 - u) < EDGE):
                    # rounded coordinates leave the window
                    out.append((None, 0))

                def level(index, k):
                    if k == len(lines):
                        z = c[(slice(None), slice(None)) + index]
                        if np.isnan(z).any():
                            return [np.nan], 0
                        col = [curve(model, wx[1], z[:, b], s['nx'] - 1, xs)
                               for b in range(z.shape[1])]
                        f, m = curve(model, wy[1],
                                     np.array([f for f, _ in col]),
                                     s['ny'] - 1, ys)
                        return [f], m + max(m for _, m in col)
                    got, most = [], 0
                    for a, b, w in found[k][0]:
                        p, m0 = level(index + (a, ), k + 1)
                        q, m1 = level(index + (b, ), k + 1)
                        got += mix('linear', w, p, q)
                        most = max(most, m0, m1)
                    return got, most

                got, most = level((), 2)
                out += [(x, 1e-7 * (big + most)) for x in got]
                # a missing value of the window of any slice
                if any(np.isnan(c[(slice(None), slice(None)) + k]).any()
                       for k in np.ndindex(c.shape[2:])):
                    out.append((None, 0))
        return out

    def curve(self, sc, s, grid, lines, v, out):
        C = zoo.C()
        axis, line = axis_of(s['axis'], s['seed'] + 1)
        r = rng_of(s['seed'])
        n = len(line.v)
        y = r.normal(size=n) * 10
        q = queries(line, r, s['size'], s['far'])
        what = f'interpolate1d {s["model"]} {s["half"]} {n} {s["bounds"]}'
        a, fired = self.call(sc, s, out, lambda: C.interpolate1d(
            axis, y, q, half_window_size=s['half'], bounds_error=s['bounds'],
            kind=s['model']), what)
        want = []
        short = False
        for x in q:
            cells, clear = line.cells(x)
            if not cells:
                want.append(None)
                continue
            w = [] if clear else [(None, 0)]
            d = np.abs(line.v - x)
            for i in np.flatnonzero(d <= d.min() + EDGE):
                a0, a1 = max(i - s['half'], 0), min(i + s['half'], n - 1)
                if a1 - a0 + 1 < MODELS[s['model']]:
                    short = True
                    continue
                for c, _, t in cells:
                    if a0 <= c and c + 1 <= a1:
                        xq = line.v[c] + t * (line.v[c + 1] - line.v[c])
                        f, m = curve(s['model'], line.v[a0:a1 + 1],
                                     y[a0:a1 + 1], c - a0, xq)
                        w.append((f, 1e-8 * (1 + m)))
            want.append(w or 'any')
        if short and a[0] == 'err' and a[1] == 'ValueError':
            out.tag('refused')
            return
        self.judge(what, a, fired, s, want, out)

    def bad(self, sc, s, grid, lines, v, out):
        """Calls that have to be refused."""
        P = zoo.P()
        fn = {2: P.bivariate, 3: P.trivariate, 4: P.quadrivariate}[sc['dim']]
        args = self.given(sc, grid, self.coordinates(
            sc, dict(s, size=s['size'] + 2), lines))
        r = rng_of(s['seed'] + 5)
        k = int(r.integers(0, 4))
        kw = {}
        if k == 0:
            at = int(r.integers(0, len(args)))
            args[at] = args[at][:-1]
        elif k == 1:
            at = int(r.integers(0, len(args)))
            args[at] = args[at].reshape(1, -1)
        elif k == 2:
            kw['interpolator'] = 'cubic'
        elif k == 3:
            y = lines[1].v
            args[1] = args[1].copy()
            args[1][-1] = y.max() + 1000
            kw['bounds_error'] = True
        what = f'{fn.__name__} badly called ({k})'
        a, fired = self.call(sc, s, out, lambda: fn(
            grid, *args, num_threads=s['threads'], **kw), what)
        if a[0] == 'ok':
            out.fail('accepted', f'{what} answers')
        elif not fired and a[1] not in ('ValueError', 'TypeError',
                                        'IndexError'):
            out.fail('error', f'{what}: {a[1:]}')

    def axis(self, sc, s, grid, lines, v, out):
        """The axes of the grid."""
        r = rng_of(s['seed'])
        for k, m in enumerate(lines):
            axis = getattr(grid, 'xyzu'[k])
            time = sc['axes'][k]['kind'] == 'time'
            unit = sc['axes'][k]['unit']
            n = len(m.v)
            got = np.array([axis[i] for i in range(n)])
            if time:
                got = got.astype('i8')
            d = got - m.v
            if m.angle:
                d = (d + 180) % 360 - 180
            if not np.all(np.abs(d) <= (0 if time else 1e-9)):
                out.fail('points', f'axis {k}: {got}, given {m.v}')
                return
            q = queries(m, r, s['size'], s['far'])
            arg = q
            if time:
                q, arg = dates(q, unit, s.get('unit'), r)
            bounded = bool(r.integers(0, 2))
            a, fired = self.call(sc, s, out, lambda: axis.find_index(
                arg, bounded), f'find_index {k}')
            if a[0] == 'err':
                if not fired:
                    out.fail('error', f'find_index: {a}')
                    return
            else:
                for x, i in zip(q, a[1]):
                    self.nearest(k, m, x, int(i), bounded, out)
            a, fired = self.call(sc, s, out, lambda: axis.find_indexes(arg),
                                 f'find_indexes {k}')
            if a[0] == 'err':
                if not fired:
                    out.fail('error', f'find_indexes: {a}')
                    return
                continue
            for x, (i, j) in zip(q, a[1]):
                cells, clear = m.cells(x)
                ok = [(c, e) for c, e, _ in cells] + [
                    (e, c) for c, e, _ in cells]
                if not cells or not clear:
                    ok.append((-1, -1))
                if (int(i), int(j)) not in ok:
                    out.fail('cell', f'axis {k} ({sc["axes"][k]}): {x} is '
                             f'between the points {i}, {j}, expected {ok}')
                    return

    def codes(self, sc, s, grid, lines, v, out):
        """The grids of geohash codes."""
        P, C = zoo.P(), zoo.C()
        from pyinterp import geohash
        from pyinterp.backends import xarray as backend
        r = rng_of(s['seed'])
        box = None
        if s['box']:
            lon, lat = r.uniform(-180, 120), r.uniform(-90, 60)
            box = C.geodetic.Box(
                C.geodetic.Point(lon, lat),
                C.geodetic.Point(lon + r.uniform(1, 60),
                                 lat + r.uniform(1, 30)))
        _, nx, ny = C.GeoHash.grid_properties(
            box or C.geodetic.Box.whole_earth(), s['precision'])
        if not nx * ny:
            # a box inside a row or a column of cells holds none
            box = None
        what = f'GeoHash.grid {box} {s["precision"]}'
        a, fired = self.call(sc, s, out, lambda: P.GeoHash.grid(
            box, s['precision']), what)
        if a[0] == 'err':
            if not fired:
                out.fail('error', f'{what}: {a[1:]}')
            return
        table = a[1]['geohash']
        at = [np.asarray(table.coords[d].values, 'f8') for d in table.dims]
        at = dict(zip(table.dims, np.meshgrid(*at, indexing='ij')))
        again = geohash.encode(at['lon'].ravel(), at['lat'].ravel(),
                               s['precision'])
        if (again != table.values.ravel()).any():
            out.fail('codes', f'{what}: the codes are not at their places')
            return
        # values given to some of the codes
        codes = geohash.bounding_boxes(box, precision=s['precision'])
        codes = codes[r.random(len(codes)) < .8]
        z = np.round(r.normal(size=len(codes)) * 100).astype(s['dtype'])
        what = f'to_xarray {len(codes)} codes of {s["precision"]}'
        a, fired = self.call(sc, s, out, lambda: geohash.to_xarray(codes, z),
                             what)
        if a[0] == 'err':
            if not fired:
                out.fail('error', f'{what}: {a[1:]}')
            return
        lon, lat = geohash.decode(codes)
        lon = lon + 360. * r.integers(-1, 2, len(lon))
        fn = backend.Grid2D(a[1], increasing_axes=bool(r.integers(0, 2)))
        a, fired = self.call(sc, s, out, lambda: fn.bivariate(
            dict(lat=lat, lon=lon), interpolator='nearest',
            bounds_error=s['bounds'], num_threads=s['threads']), what)
        if a[0] == 'err':
            if not fired:
                out.fail('error', f'{what}: {a[1:]}')
            return
        out.tag('compared', len(z))
        if not np.array_equal(a[1], z):
            out.fail('codes', f'{what}: the values are not at the places of '
                     'their codes')

    def bins(self, sc, s, grid, lines, v, out):
        """Samples pushed in bins whose centres are the points of two axes."""
        P = zoo.P()
        r = rng_of(s['seed'])
        (x, mx), (y, my) = [axis_of(a, s['seed'] + k)
                            for k, a in enumerate(sc['axes'][:2])]
        n = s['size'] * 4
        qx, qy = queries(mx, r, n, .15), queries(my, r, n, .15)
        z = np.round(r.normal(size=n) * 16) / 4
        z[r.random(n) < .1] = np.nan
        w = r.integers(1, 5, n) / 2.
        dtype = s['dtype']
        shape = (len(mx.v), len(my.v))
        want = [[] for _ in range(shape[0] * shape[1])]
        keep = np.ones(n, bool)
        what = f'bins {s["kind"]} {dtype} {shape}'
        lo, hi = mx.v.min(), mx.v.max()
        for k in range(n):
            to = self.share(s, mx, my, qx[k], qy[k], lo, hi)
            keep[k] = to is not None
            if to and z[k] == z[k]:
                for i, j, f in to:
                    want[i * shape[1] + j].append(
                        (z[k], f * (w[k] if s['kind'] == 'line' else 1)))
        qx, qy, z, w = [c[keep].astype(dtype) for c in (qx, qy, z, w)]
        if s['kind'] == 'histogram':
            b = P.Histogram2D(x, y, 64, dtype=np.dtype(dtype))
        elif s['kind'] == 'line':
            b = P.Binning1D(x, dtype=np.dtype(dtype))
        else:
            b = P.Binning2D(x, y, dtype=np.dtype(dtype))
        a, fired = self.call(
            sc, s, out, lambda: b.push(qx, z, w) if s['kind'] == 'line' else
            b.push(qx, qy, z) if s['kind'] == 'histogram' else
            b.push(qx, qy, z, s['kind'] == 'nearest'), what)
        if a[0] == 'err':
            if not fired:
                out.fail('error', f'{what}: {a[1:]}')
            return
        names = ['mean', 'min', 'max', 'count']
        if s['kind'] == 'linear':
            names = ['mean', 'sum_of_weights']
        if s['kind'] == 'line':
            shape = (shape[0], )
            want = [want[i * len(my.v)] for i in range(shape[0])]
            names = ['mean', 'sum_of_weights', 'count']
        for name in names:
            got = np.asarray(b.variable(name), 'f8').reshape(shape)
            for k, cell in enumerate(want):
                g = got.flat[k]
                weight = sum(f for _, f in cell)
                if s['kind'] == 'linear' and weight < 1e-6:
                    continue
                if name in ('count', 'sum_of_weights'):
                    e = len(cell) if name == 'count' else weight
                elif not cell:
                    e = np.nan if name != 'count' else 0
                    if g == 0:
                        g = e
                elif name == 'mean':
                    e = sum(f * c for c, f in cell) / weight
                else:
                    e = (min if name == 'min' else max)(c for c, _ in cell)
                out.tag('compared')
                if not near(g, e, 1e-5):
                    out.fail('bins', f'{what}: the {name} of the bin {k} is '
                             f'{g}, expected {e}')
                    return

    def share(self, s, mx, my, x, y, lo, hi):
        """[(i, j, part)] of the bins of a sample, None if several answers
        are right."""
        if s['kind'] == 'line':
            if x != x or x < lo - 1e-6 or x > hi + 1e-6:
                return []
            if not lo + 1e-6 < x < hi - 1e-6:
                return None
            i = self.bin(mx, x)
            return None if i is None else [(i, 0, 1.)]
        if s['kind'] == 'linear':
            (cx, ox), (cy, oy) = mx.cells(x), my.cells(y)
            if not (ox and oy):
                return None
            if not cx or not cy:
                return []
            # the cells around a point give it all the weight
            (i0, i1, t), (j0, j1, u) = cx[0], cy[0]
            return [(i0, j0, (1 - t) * (1 - u)), (i0, j1, (1 - t) * u),
                    (i1, j0, t * (1 - u)), (i1, j1, t * u)]
        if x != x or y != y:
            return []
        i, j = self.bin(mx, x), self.bin(my, y)
        return None if i is None or j is None else [(i, j, 1.)]

    def bin(self, m, x):
        """The nearest point, None when it is not unique."""
        if m.angle and not m.circle:
            cells, clear = m.cells(x)
            if not cells or not clear:
                return None
        d = np.abs((m.v - x + 180) % 360 - 180) if m.angle \
            else np.abs(m.v - x)
        near_ = np.flatnonzero(d <= d.min() + 1e-6)
        return int(near_[0]) if len(near_) == 1 else None

    def nearest(self, k, m, x, i, bounded, out):
        v = m.v
        n = len(v)
        if x != x:
            if i != -1 and not bounded:
                out.fail('nearest', f'axis {k}: NaN is at {i}')
            return
        d = np.abs(v - x)
        if m.angle:
            d = np.abs((v - x + 180) % 360 - 180)
        lo, hi = v.min(), v.max()
        cells, clear = m.cells(x)
        inside = bool(cells) or not m.angle and lo <= x <= hi
        tol = 0 if m.v.dtype.kind == 'i' else EDGE * (1 + np.abs(v).max())
        ok = set(np.flatnonzero(d <= d.min() + tol).tolist())
        if inside and not clear:
            if not bounded:
                ok.add(-1)
            elif m.angle:
                # rounding moves it a turn away
                ok |= {0, n - 1}
        if not inside:
            if m.angle:
                ok |= {0, n - 1}
            if not bounded:
                # half a step around a regular axis belongs to its ends
                step = abs(v[1] - v[0]) if n > 1 else 0
                if not 2 * d.min() <= step + tol or n == 1:
                    ok = set()
                ok.add(-1)
        if i not in ok:
            out.fail('nearest', f'axis {k}: {x} is at {i}, expected {ok} '
                     f'(bounded: {bounded}) {v}')
