"""The kinds of objects of the library.

A kind knows how to draw a description (small values only), build the object,
read everything observable about it without changing it, and change it.
Descriptions are stored in the replay files.
"""
import datetime
import re
import warnings

import numpy as np

import ops
import simrt
from ops import lonlat, make_axis, make_polygon, rng_of

np.seterr(all='ignore')
warnings.simplefilter('ignore')


def C():
    return simrt.core


def P():
    return simrt.pyinterp


KINDS = {}


def kind(cls):
    k = cls()
    KINDS[k.name] = k
    return cls


class Kind:
    name = ''
    mutable = False
    exact = True  # the order of floating point operations is preserved

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)))

    def make(self, p):
        raise NotImplementedError

    def reads(self, p):
        """[(name, function of the object)]: no function changes it."""
        raise NotImplementedError

    def gen_op(self, r, p):
        return None

    def apply(self, obj, op, p):
        raise NotImplementedError

    def inner(self, obj):
        """The object of the extension, for the wrappers."""
        return obj


def draw(r, names=None):
    names = names or list(KINDS)
    name = str(r.choice(names))
    p = KINDS[name].gen(r)
    p['kind'] = name
    return p


def make(p):
    return KINDS[p['kind']].make(p)


ADDRESS = re.compile(r'0x[0-9a-f]+')


def reads(p):
    return KINDS[p['kind']].reads(p) + [
        ('shown', lambda o: [ADDRESS.sub('', f(o)) for f in (repr, str)])]


def observe(p, obj):
    """Everything that can be read."""
    out = []
    for name, fn in reads(p):
        try:
            out.append((name, canon(fn(obj))))
        except (MemoryError, RecursionError):
            raise
        except Exception as e:  # noqa: BLE001
            out.append((name, f'{type(e).__name__}: {e}'.encode()))
    return out


def difference(a, b):
    for (n, x), (_, y) in zip(a, b):
        if x != y:
            return f'{n}: {show(x)} instead of {show(y)}'
    return 'same'


def show(b):
    if len(b) > 90:
        import hashlib
        return f'{b[:60]!r}...#{hashlib.md5(b).hexdigest()[:8]}'
    return repr(b)


# ---------------------------------------------------------------------------
def canon(v):
    """Bytes that identify a value."""
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return repr(v).encode()
    if isinstance(v, (datetime.date, datetime.time, datetime.timedelta)):
        return repr(v).encode()
    if isinstance(v, float):
        return b'nan' if v != v else float(v).hex().encode()
    if isinstance(v, np.generic):
        return canon(np.asarray(v))
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'O':
            return f'O{v.shape}'.encode() + canon(list(v.ravel()))
        if v.dtype.names:
            return b'{' + b';'.join(n.encode() + canon(v[n])
                                    for n in v.dtype.names) + b'}'
        return ops.canonical(v)
    if isinstance(v, dict):
        return b'{' + b','.join(canon(k) + b':' + canon(v[k])
                                for k in v) + b'}'
    if isinstance(v, (tuple, list)):
        return b'(' + b','.join(canon(x) for x in v) + b')'
    g = C().geodetic
    if isinstance(v, (g.Point, g.Box, g.Polygon, g.LineString,
                      g.MultiPolygon)):
        return type(v).__name__.encode() + coords(v.to_geojson())
    if isinstance(v, g.Spheroid):
        return canon((v.semi_major_axis, v.flattening))
    if isinstance(v, g.Coordinates):
        return canon(v.spheroid)
    if isinstance(v, (C().Axis, C().AxisInt64)):
        return type(v).__name__.encode() + canon(
            (axis_values(v), getattr(v, 'is_circle', None)))
    if isinstance(v, C().GeoHash):
        return canon((str(v), v.precision(), v.number_of_bits()))
    if isinstance(v, C().PeriodList):
        return canon(v.periods)
    if isinstance(v, C().Period):
        return canon((v.begin, v.last))
    if isinstance(v, P().period.PeriodList):
        return canon(v.periods)
    if hasattr(v, '__members__') or hasattr(type(v), '__members__'):
        return repr(v).encode()
    if isinstance(v, type) or callable(v):
        return v.__name__.encode()
    if hasattr(v, '__iter__'):
        return canon(list(v))
    raise TypeError(f'canon: {type(v)}')


def coords(v):
    """geojson with exact numbers"""
    if isinstance(v, dict):
        return b'{' + b','.join(str(k).encode() + b':' + coords(x)
                                for k, x in sorted(v.items())) + b'}'
    if isinstance(v, (list, tuple)):
        return b'[' + b','.join(coords(x) for x in v) + b']'
    if isinstance(v, (float, int)):
        return float(v).hex().encode()
    return str(v).encode()


def axis_values(a):
    return a[:]


def read_methods(names):
    return [(n, lambda o, n=n: getattr(o, n)()) for n in names]


# ---------------------------------------------------------------------------
class AxisBase(Kind):
    mutable = True

    def queries(self, p):
        raise NotImplementedError

    def reads(self, p):
        q = self.queries(p)
        n = p['n']
        out = read_methods(['front', 'back', 'min_value', 'max_value',
                            'is_regular', 'is_ascending', 'increment',
                            '__len__', '__repr__', '__getstate__'])
        out += [
            ('values', axis_values),
            ('find_index', lambda o: o.find_index(q)),
            ('find_index bounded', lambda o: o.find_index(q, bounded=True)),
            ('find_indexes', lambda o: o.find_indexes(q)),
            ('flip', lambda o: o.flip(False)),
            ('slice', lambda o: o[1:n:2]),
            ('items', lambda o: [o[i] for i in range(len(o))]),
            ('iter', lambda o: list(o)),
            ('eq', lambda o: (o == o, o != o)),
        ]
        return out

    def gen_op(self, r, p):
        return dict(op='flip') if p['n'] > 1 else None

    def apply(self, obj, op, p):
        obj.flip(inplace=True)


@kind
class AxisKind(AxisBase):
    name = 'Axis'

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    n=int(r.choice([1, 2, 3, 8, 37])),
                    circle=bool(r.random() < .4),
                    partial=bool(r.random() < .15))

    def make(self, p):
        r = rng_of(p['seed'])
        n = p['n']
        if n == 1:
            return C().Axis(np.array([r.uniform(-10, 10)]),
                            is_circle=p['circle'])
        if p['partial']:
            # an angle that does not cover the circle
            return C().Axis(np.linspace(10, 10 + r.uniform(20, 200), n),
                            is_circle=True)
        if r.random() < .1:
            v = 1e12 + np.cumsum(r.uniform(.5, 3, n))
            return C().Axis(v, epsilon=1e-3)
        return make_axis(p['seed'] + 1, n, -30, 50, p['circle'])

    def queries(self, p):
        r = rng_of(p['seed'] + 9)
        q = np.concatenate([r.uniform(-400, 400, 12), r.uniform(-30, 50, 20)])
        q[3] = np.nan
        return q

    def reads(self, p):
        return super().reads(p) + [('is_circle', lambda o: o.is_circle)]


@kind
class AxisInt64Kind(AxisBase):
    name = 'AxisInt64'

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    n=int(r.choice([1, 2, 3, 8, 37])))

    def make(self, p):
        r = rng_of(p['seed'])
        step = int(r.integers(1, 10))
        v = np.arange(p['n']) * step + int(r.integers(-50, 50))
        if r.random() < .5:
            v = np.unique(r.integers(-200, 200, p['n']))
        if r.random() < .4:
            v = v[::-1].copy()
        return C().AxisInt64(v.astype('i8'))

    def queries(self, p):
        return rng_of(p['seed'] + 9).integers(-250, 400, 30)


@kind
class TemporalAxisKind(AxisBase):
    name = 'TemporalAxis'

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    n=int(r.choice([1, 2, 3, 8, 37])),
                    unit=str(r.choice(['ns', 's', 'D', 'ms'])),
                    delta=bool(r.random() < .2))

    def make(self, p):
        r = rng_of(p['seed'])
        v = np.unique(r.integers(0, 100000, p['n']))
        if r.random() < .5:
            v = np.arange(p['n']) * int(r.integers(1, 90))
        if r.random() < .4:
            v = v[::-1].copy()
        return C().TemporalAxis(v.astype(('m8[' if p['delta'] else 'M8[') +
                                         p['unit'] + ']'))

    def queries(self, p):
        v = rng_of(p['seed'] + 9).integers(-10, 120000, 30)
        return v.astype(('m8[' if p['delta'] else 'M8[') + p['unit'] + ']')

    def reads(self, p):
        q = self.queries(p)
        return super().reads(p) + [
            ('dtype', lambda o: str(o.dtype())),
            ('safe_cast', lambda o: o.safe_cast(q)),
            ('cast units', lambda o: [
                o.safe_cast(q[:5].astype(q.dtype.str[1:3] + f'[{u}]'))
                for u in ('h', 's', 'ms', 'us')]),
        ]


# ---------------------------------------------------------------------------
def interpolations(p, g, axes):
    """Interpolations on a grid given to `fn`: the Python layer."""
    pts = ops.make_points(g['seed'], axes, 9, .2)
    d = g['dim']
    out = []
    if g['temporal']:
        pts[2] = pts[2].astype('M8[ns]')
    for kind_ in ('bilinear', 'nearest', 'inverse_distance_weighting'):
        if d == 2:
            out.append((kind_, lambda o, k=kind_, n=1: P().bivariate(
                o, *pts, interpolator=k, num_threads=n)))
        elif d == 3:
            out.append((kind_, lambda o, k=kind_, n=1: P().trivariate(
                o, *pts, interpolator=k, num_threads=n)))
        else:
            out.append((kind_, lambda o, k=kind_, n=1: P().quadrivariate(
                o, *pts, interpolator=k, num_threads=n)))
    if g['dtype'].startswith('float'):
        out.append(('bicubic', lambda o, n=1: P().bicubic(
            o, *pts, nx=2, ny=2, fitting_model='bicubic', num_threads=n)))
        out.append(('spline', lambda o, n=1: P().bicubic(
            o, *pts, nx=3, ny=3, fitting_model='c_spline', num_threads=n)))
        out.append(('loess', lambda o, n=1: P().fill.loess(
            o, 2, 2, value_type='all', num_threads=n)))
        if d < 4:
            out.append(('gauss_seidel', lambda o, n=1: P().fill.gauss_seidel(
                o, max_iteration=3, num_threads=n)))
    return out


@kind
class GridKind(Kind):
    """Grid2D, Grid3D, Grid4D of the Python layer."""
    name = 'Grid'

    def gen(self, r):
        g = ops.gen_grid(r, [2, 2, 3, 4], ints=True)
        g['n'] = [int(r.integers(5, 9)), int(r.integers(5, 9)),
                  int(r.integers(2, 5)), int(r.integers(2, 4))]
        g['inc'] = str(r.choice(['', '', 'copy']))
        return dict(grid=g, seed=g['seed'])

    def axes(self, p):
        return ops.make_grid(p['grid'])[1:]

    def make(self, p):
        g = p['grid']
        axes, values = self.axes(p)
        cls = getattr(P(), f'Grid{g["dim"]}D')
        kw = dict(increasing_axes=g['inc']) if g['inc'] else {}
        return cls(*axes, values, **kw)

    def gen_op(self, r, p):
        return dict(op='poke', at=float(r.random()),
                    value=int(r.integers(-9, 9)))

    def apply(self, obj, op, p):
        a = obj.array
        a[np.unravel_index(int(op['at'] * a.size), a.shape)] = \
            np.array(op['value']).astype(a.dtype)

    def reads(self, p):
        g = p['grid']
        axes, _ = self.axes(p)
        out = [('array', lambda o: o.array), ('repr', repr)]
        for i, n in enumerate('xyzu'[:g['dim']]):
            out.append((n, lambda o, n=n: getattr(o, n)))
        return out + interpolations(p, g, axes)


@kind
class BackendKind(Kind):
    """The interpolator of labelled arrays."""
    name = 'Backend'

    def gen(self, r):
        p = KINDS['Grid'].gen(r)
        d = p['grid']['dim']
        if p['grid']['dtype'] not in ('float64', 'float32'):
            p['grid']['dtype'] = 'float32'
        p.update(dims=[int(k) for k in r.permutation(d)],
                 process=int(r.integers(1 << 30)),
                 wrap=bool(r.random() < .6))
        p['grid']['circle'] = bool(r.random() < .7)
        return p

    NAMES = [ops.Name(n) for n in ('lon', 'lat', 'z', 'u')]

    def array(self, p):
        g = p['grid']
        axes, values = ops.make_grid(g)[1:]
        points = [np.array([a[i] for i in range(len(a))]) for a in axes]
        units = ['degrees_east', 'degrees_north', '', ''] if g['circle'] \
            else [''] * 4
        ops.Name.process = p['process']
        return ops.data_array(list(enumerate(points)), values, p['dims'],
                              self.NAMES, units)

    def make(self, p):
        from pyinterp.backends import xarray as backend
        g = p['grid']
        kw = dict(increasing_axes=bool(g['inc']), geodetic=g['circle'])
        cls = backend.RegularGridInterpolator if p['wrap'] else \
            getattr(backend, f'Grid{g["dim"]}D')
        return cls(self.array(p), **kw)

    @staticmethod
    def grid(o):
        return o.grid if hasattr(o, 'grid') else o

    def inner(self, obj):
        return self.grid(obj)._instance

    def gen_op(self, r, p):
        return KINDS['Grid'].gen_op(r, p)

    def apply(self, obj, op, p):
        KINDS['Grid'].apply(self.grid(obj), op, p)

    def reads(self, p):
        g = p['grid']
        axes, _ = ops.make_grid(g)[1:]
        pts = ops.make_points(g['seed'], axes, 9, .2)
        if g['temporal']:
            pts[2] = pts[2].astype('M8[ns]')
        at = dict(zip(self.NAMES, pts))
        fn = {2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}[g['dim']]
        out = [('array', lambda o: self.grid(o).array),
               ('dims', lambda o: [str(n) for n in self.grid(o)._dims])]
        for i, n in enumerate('xyzu'[:g['dim']]):
            out.append((n, lambda o, n=n: getattr(self.grid(o), n)))
        for k in ('bilinear', 'nearest', 'inverse_distance_weighting'):
            extra = dict(z_method='nearest') if g['dim'] > 2 else {}
            out.append((k, lambda o, k=k, n=1, e=extra: o(
                at, method=k, num_threads=n, **e) if p['wrap'] else
                getattr(o, fn)(at, interpolator=k, num_threads=n, **e)))
        out.append(('spline', lambda o, n=1: o(
            at, method='bicubic', num_threads=n,
            bicubic_kwargs=dict(nx=3, ny=3)) if p['wrap'] else o.bicubic(
                at, nx=3, ny=3, num_threads=n)))
        if p['wrap']:
            out.append(('ndim', lambda o: o.ndim))
        return out


# ---------------------------------------------------------------------------
class TreeBase(Kind):
    mutable = True

    def gen_op(self, r, p):
        k = r.random()
        if k < .15:
            return dict(op='clear')
        return dict(op='packing' if k < .35 else 'insert',
                    seed=int(r.integers(1 << 30)),
                    n=int(r.choice([0, 1, 2, 7, 25, 60])))


@kind
class RTreeKind(TreeBase):
    name = 'RTree'

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    n=int(r.choice([0, 1, 5, 25, 70])),
                    dtype=str(r.choice(['float64', 'float64', 'float32'])),
                    ecef=bool(r.random() < .25),
                    wgs=bool(r.random() < .25),
                    cols=int(r.choice([2, 3])))

    def points(self, p, seed, n):
        r = rng_of(seed)
        lon, lat = lonlat(seed, n, 20)
        s = 2e5 if p['ecef'] else 1
        c = [lon * s, lat * s]
        if p['cols'] == 3:
            c.append(r.uniform(0, 1000, n))
        return np.column_stack(c).astype(p['dtype']), \
            r.integers(-1000, 1000, n).astype(p['dtype'])

    def make(self, p):
        wgs = None
        if p['wgs'] and not p['ecef']:
            wgs = P().geodetic.Spheroid((6378000., 1 / 299.))
        o = P().RTree(wgs, np.dtype(p['dtype']), p['ecef'])
        if p['n']:
            o.packing(*self.points(p, p['seed'], p['n']))
        return o

    def apply(self, obj, op, p):
        if op['op'] == 'clear':
            obj.clear()
        else:
            getattr(obj, op['op'])(*self.points(p, op['seed'], op['n']))

    def reads(self, p):
        q, _ = self.points(p, p['seed'] + 77, 6)

        def pairs(t):
            d, v = t
            return [sorted(zip(a.tolist(), b.tolist()))
                    for a, b in zip(d, v)]

        return [
            ('len', len), ('bool', bool), ('bounds', lambda o: o.bounds()),
            ('query', lambda o, n=1: pairs(o.query(q, k=3, within=False,
                                                   num_threads=n))),
            ('value', lambda o, n=1: o.value(q, None, 2, within=False,
                                             num_threads=n)),
            ('idw', lambda o, n=1: o.inverse_distance_weighting(
                q, None, 4, within=False, num_threads=n)),
            ('rbf', lambda o, n=1: o.radial_basis_function(
                q, k=4, within=False, num_threads=n)),
            ('window', lambda o, n=1: o.window_function(
                q, radius=2e6, k=4, within=False, num_threads=n)),
            ('kriging', lambda o, n=1: o.universal_kriging(
                q, k=4, within=False, num_threads=n)),
        ]


@kind
class GeoRTreeKind(TreeBase):
    name = 'geodetic.RTree'

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    n=int(r.choice([0, 1, 5, 25, 70])),
                    wgs=int(r.integers(0, 3)))

    def points(self, p, seed, n):
        r = rng_of(seed)
        lon, lat = lonlat(seed, n, 20)
        return lon, lat, r.integers(-1000, 1000, n).astype('f8')

    def make(self, p):
        wgs = [None, P().geodetic.Spheroid(),
               P().geodetic.Spheroid((6378000., 1 / 299.))][p['wgs']]
        o = P().geodetic.RTree(wgs)
        if p['n']:
            o.packing(*self.points(p, p['seed'], p['n']))
        return o

    def apply(self, obj, op, p):
        if op['op'] == 'clear':
            obj.clear()
        else:
            getattr(obj, op['op'])(*self.points(p, op['seed'], op['n']))

    def reads(self, p):
        lon, lat, _ = self.points(p, p['seed'] + 77, 6)

        def pairs(t):
            d, v = t
            return [sorted(zip(a.tolist(), b.tolist()))
                    for a, b in zip(d, v)]

        return [
            ('len', len), ('bool', bool),
            ('query', lambda o, n=1: pairs(o.query(
                lon, lat, k=3, within=False, num_threads=n))),
            ('idw', lambda o, n=1: o.inverse_distance_weighting(
                lon, lat, None, 4, within=False, num_threads=n)),
            ('rbf', lambda o, n=1: o.radial_basis_function(
                lon, lat, k=4, within=False, num_threads=n)),
            ('window', lambda o, n=1: o.window_function(
                lon, lat, radius=2e6, k=4, within=False, num_threads=n)),
        ]


# ---------------------------------------------------------------------------
STATS = ['count', 'kurtosis', 'max', 'mean', 'min', 'skewness',
         'sum_of_weights', 'variance']


class BinBase(Kind):
    mutable = True
    stats = STATS

    def inner(self, obj):
        return obj._instance

    def variables(self):
        return [(n, lambda o, n=n: o.variable(n)) for n in self.stats]

    def samples(self, p, op):
        r = rng_of(op['seed'])
        n = op['n']
        x = r.uniform(-5, 15, n)
        y = r.uniform(-5, 15, n)
        on = r.random(n) < .3
        x[on], y[on] = np.round(x[on]), np.round(y[on])
        z = np.round(r.normal(0, 10, n), 2)
        z[r.random(n) < .05] = np.nan
        return x, y, z

    def gen_op(self, r, p):
        k = r.random()
        if k < .1:
            return dict(op='clear')
        return dict(op='push' if k < .75 else 'iadd',
                    seed=int(r.integers(1 << 30)),
                    n=int(r.choice([0, 1, 2, 9, 40])),
                    simple=bool(r.random() < .5),
                    weights=bool(r.random() < .4))

    def apply(self, obj, op, p):
        if op['op'] == 'clear':
            obj.clear()
        elif op['op'] == 'push':
            self.push(obj, op, p)
        else:
            o = self.make(p)
            self.push(o, op, p)
            obj._instance += o._instance


@kind
class Binning2DKind(BinBase):
    name = 'Binning2D'
    stats = STATS + ['sum']

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    dtype=str(r.choice(['float64', 'float32'])),
                    wgs=bool(r.random() < .3), nx=int(r.integers(1, 7)),
                    ny=int(r.integers(1, 7)))

    def axes(self, p):
        return (C().Axis(np.arange(p['nx']) * 2.),
                C().Axis(np.arange(p['ny']) * 2.))

    def make(self, p):
        wgs = P().geodetic.Spheroid() if p['wgs'] else None
        return P().Binning2D(*self.axes(p), wgs, np.dtype(p['dtype']))

    def push(self, obj, op, p):
        obj.push(*[a.astype(p['dtype']) for a in self.samples(p, op)],
                 op['simple'])

    def reads(self, p):
        return self.variables() + [
            ('variance 1', lambda o: o._instance.variance(1)),
            ('x', lambda o: o.x), ('y', lambda o: o.y),
            ('wgs', lambda o: o.wgs), ('dtype', lambda o: str(o.dtype))]


@kind
class Binning1DKind(BinBase):
    name = 'Binning1D'
    stats = STATS + ['sum']

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    dtype=str(r.choice(['float64', 'float32'])),
                    nx=int(r.integers(2, 9)),
                    range=bool(r.random() < .4))

    def make(self, p):
        rg = (0.5, 9.5) if p['range'] else None
        return P().Binning1D(C().Axis(np.arange(p['nx']) * 2.), rg,
                             np.dtype(p['dtype']))

    def push(self, obj, op, p):
        x, _, z = self.samples(p, op)
        w = None
        if op['weights']:
            w = rng_of(op['seed'] + 1).integers(1, 5, len(x)).astype(
                p['dtype'])
        obj.push(x.astype(p['dtype']), z.astype(p['dtype']), w)

    def reads(self, p):
        return self.variables() + [
            ('x', lambda o: o.x), ('range', lambda o: o.range()),
            ('dtype', lambda o: str(o.dtype))]


@kind
class Histogram2DKind(BinBase):
    name = 'Histogram2D'

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    dtype=str(r.choice(['float64', 'float32'])),
                    nx=int(r.integers(1, 5)), ny=int(r.integers(1, 5)),
                    bins=int(r.choice([0, 2, 5, 20])))

    def make(self, p):
        return P().Histogram2D(C().Axis(np.arange(p['nx']) * 2.),
                               C().Axis(np.arange(p['ny']) * 2.),
                               p['bins'] or None, np.dtype(p['dtype']))

    def push(self, obj, op, p):
        obj.push(*[a.astype(p['dtype']) for a in self.samples(p, op)])

    def reads(self, p):
        return self.variables() + [
            ('quantile', lambda o: o.variable('quantile', .3)),
            ('histograms', lambda o: o._instance.histograms()),
            ('x', lambda o: o.x), ('y', lambda o: o.y),
            ('dtype', lambda o: str(o.dtype))]


class StatBase(Kind):
    mutable = True

    def inner(self, obj):
        return obj._instance

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    dtype=str(r.choice(['float64', 'float32'])),
                    shape=[int(r.integers(1, 9)), int(r.integers(1, 5))],
                    axis=int(r.integers(-1, 2)),
                    weights=bool(r.random() < .3),
                    bins=int(r.choice([0, 2, 5, 20])))

    def data(self, p, seed, n=None):
        r = rng_of(seed)
        v = np.round(r.normal(0, 10, p['shape']), 2).astype(p['dtype'])
        v[r.random(v.shape) < .05] = np.nan
        w = None
        if p['weights']:
            w = r.integers(1, 5, v.shape).astype(p['dtype'])
        return v, w, None if p['axis'] < 0 else [p['axis']]

    def gen_op(self, r, p):
        return dict(op='iadd', seed=int(r.integers(1 << 30)))

    def apply(self, obj, op, p):
        obj += self.make(dict(p, seed=op['seed']))


@kind
class DescriptiveKind(StatBase):
    name = 'DescriptiveStatistics'

    def make(self, p):
        v, w, axis = self.data(p, p['seed'])
        return P().DescriptiveStatistics(v, w, axis,
                                         np.dtype(p['dtype']))

    def reads(self, p):
        return read_methods(['count', 'kurtosis', 'max', 'mean', 'min',
                             'skewness', 'sum', 'sum_of_weights', 'var',
                             'std', 'array', '__str__']) + [
            ('var 1', lambda o: o.var(1)), ('std 1', lambda o: o.std(1))]


@kind
class StreamingKind(StatBase):
    name = 'StreamingHistogram'

    def make(self, p):
        v, w, axis = self.data(p, p['seed'])
        return P().StreamingHistogram(v, w, axis, p['bins'] or None,
                                      np.dtype(p['dtype']))

    def gen_op(self, r, p):
        if r.random() < .25:
            return dict(op='resize', n=int(r.choice([2, 4, 30])))
        return super().gen_op(r, p)

    def apply(self, obj, op, p):
        if op['op'] == 'resize':
            obj._instance.resize(op['n'])
        else:
            super().apply(obj, op, p)

    def reads(self, p):
        return read_methods(['count', 'kurtosis', 'max', 'mean', 'min',
                             'skewness', 'sum_of_weights', 'var', 'std',
                             'bins', 'size']) + [
            ('quantile', lambda o: o.quantile(.3))]


# ---------------------------------------------------------------------------
STRATEGIES = ('thomas', 'andoyer', 'vincenty')
UNITS = ('Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns')


def wgs():
    return P().geodetic.Spheroid((6378200., 1 / 298.5))


@kind
class PointKind(Kind):
    name = 'Point'
    mutable = True

    def make(self, p):
        r = rng_of(p['seed'])
        return P().geodetic.Point(r.uniform(-180, 180), r.uniform(-90, 90))

    def reads(self, p):
        q = P().geodetic.Point(10.5, 20.25)
        return read_methods(['wkt', 'to_geojson', '__getstate__',
                             '__repr__', '__str__']) + [
            ('lon', lambda o: o.lon), ('lat', lambda o: o.lat),
            ('distance', lambda o: [o.distance(q, s, w) for s in STRATEGIES
                                    for w in (None, wgs())]),
            ('azimuth', lambda o: (o.azimuth(q), o.azimuth(q, wgs()))),
            ('wkt round', lambda o: P().geodetic.Point.read_wkt(o.wkt())),
            ('eq', lambda o: (o == o, o != o, o == q))]

    def gen_op(self, r, p):
        return dict(op=str(r.choice(['lon', 'lat'])),
                    v=float(np.round(r.uniform(-80, 80), 3)))

    def apply(self, obj, op, p):
        setattr(obj, op['op'], op['v'])


@kind
class BoxKind(Kind):
    name = 'Box'
    mutable = True

    def make(self, p):
        r = rng_of(p['seed'])
        G = P().geodetic
        return G.Box(G.Point(r.uniform(-40, -1), r.uniform(-40, -1)),
                     G.Point(r.uniform(1, 40), r.uniform(1, 40)))

    def reads(self, p):
        lon, lat = lonlat(p['seed'] + 5, 8, 45)
        q = P().geodetic.Point(10.5, 70.25)
        b = P().geodetic.Box(P().geodetic.Point(50, 50),
                             P().geodetic.Point(51, 52))
        return read_methods(['wkt', 'to_geojson', 'area', 'centroid',
                             'as_polygon', '__getstate__', '__repr__']) + [
            ('min_corner', lambda o: o.min_corner),
            ('max_corner', lambda o: o.max_corner),
            ('distance', lambda o: (o.distance(q), o.distance(b))),
            ('covered_by', lambda o, n=1: o.covered_by(lon, lat,
                                                       num_threads=n)),
            ('covered point', lambda o: o.covered_by(q)),
            ('area wgs', lambda o: o.area(wgs())),
            ('wkt round', lambda o: P().geodetic.Box.read_wkt(o.wkt())),
            ('eq', lambda o: (o == o, o != o, o == b))]

    def gen_op(self, r, p):
        return dict(op=str(r.choice(['min_corner', 'max_corner'])),
                    v=[float(np.round(r.uniform(0, 40), 3)),
                       float(np.round(r.uniform(0, 40), 3))])

    def apply(self, obj, op, p):
        # the corners stay in order
        v = [-x if op['op'] == 'min_corner' else x for x in op['v']]
        setattr(obj, op['op'], P().geodetic.Point(*v))


@kind
class LineStringKind(Kind):
    name = 'LineString'
    mutable = True

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    n=int(r.choice([0, 1, 2, 6, 20])))

    def make(self, p):
        lon, lat = lonlat(p['seed'], p['n'], 60)
        return P().geodetic.LineString(lon, lat)

    def reads(self, p):
        G = P().geodetic
        q = G.Point(3.5, 4.25)
        lon, lat = lonlat(p['seed'] + 5, 5, 60)
        other = G.LineString(*lonlat(p['seed'] + 6, 7, 60))
        poly = make_polygon(p['seed'] + 8, False)[0]
        return read_methods(['wkt', 'to_geojson', '__len__', '__getstate__',
                             '__repr__', 'curvilinear_distance']) + [
            ('items', lambda o: [o[i] for i in range(len(o))]),
            ('closest', lambda o: o.closest_point(q)),
            ('closest many', lambda o, n=1: list(o.closest_point(
                lon, lat, num_threads=n))),
            ('intersects', lambda o: (o.intersects(other),
                                      o.intersects(other, wgs()))),
            ('intersection', lambda o: o.intersection(other)),
            ('intersection wgs', lambda o: o.intersection(other, wgs())),
            ('intersection polygon', lambda o: (
                o.intersection(poly), o.intersection(poly, wgs()))),
            ('simplify', lambda o: [o.simplify(.1, s, w) for s in STRATEGIES
                                    for w in (None, wgs())]),
            ('curvilinear', lambda o: [
                o.curvilinear_distance(s, w) for s in STRATEGIES
                for w in (None, wgs())]),
            ('json round', lambda o: G.LineString.from_geojson(
                o.to_geojson()['coordinates'])),
            ('wkt round', lambda o: G.LineString.read_wkt(o.wkt())),
            ('eq', lambda o: (o == o, o != o, o == other))]

    def gen_op(self, r, p):
        return dict(op='append', v=[float(np.round(r.uniform(-80, 80), 3)),
                                    float(np.round(r.uniform(-80, 80), 3))])

    def apply(self, obj, op, p):
        obj.append(P().geodetic.Point(*op['v']))


def polygon_reads(p):
    G = P().geodetic
    lon, lat = lonlat(p['seed'] + 5, 8, 30)
    q = G.Point(3.5, 4.25)
    other = make_polygon(p['seed'] + 8, False)[0]
    return read_methods(['wkt', 'to_geojson', 'area', 'envelope',
                         'num_interior_rings', '__getstate__',
                         '__repr__']) + [
        ('covered_by', lambda o, n=1: o.covered_by(lon, lat, num_threads=n)),
        ('covered point', lambda o: o.covered_by(q)),
        ('cells', lambda o, n=1: [P().geohash.bounding_boxes(
            o, precision=k, num_threads=n) for k in (2, 3)]),
        ('distance', lambda o: (o.distance(q), o.distance(other))),
        ('intersects', lambda o: o.intersects(other)),
        ('intersection', lambda o: o.intersection(other)),
        ('union', lambda o: o.union(other)),
        ('touches', lambda o: o.touches(other)),
        ('area wgs', lambda o: o.area(wgs())),
        ('wkt round', lambda o: type(o).read_wkt(o.wkt())),
        ('json round', lambda o: type(o).from_geojson(
            o.to_geojson()['coordinates'])),
        ('eq', lambda o: (o == o, o != o))]


@kind
class PolygonKind(Kind):
    name = 'Polygon'

    def gen(self, r):
        p = dict(seed=int(r.integers(1 << 30)), holes=bool(r.integers(0, 2)))
        if r.random() < .06:
            p['void'] = True
        return p

    def make(self, p):
        if p.get('void'):
            return P().geodetic.Polygon([])
        return make_polygon(p['seed'], p['holes'])[0]

    def reads(self, p):
        other = make_polygon(p['seed'] + 8, False)[0]
        return polygon_reads(p) + read_methods(['perimeter']) + [
            ('outer', lambda o: o.outer), ('inners', lambda o: o.inners),
            ('difference', lambda o: o.difference(other)),
            ('simplify', lambda o: o.simplify(.1)),
            ('line', lambda o: o.intersection(P().geodetic.LineString(
                *lonlat(p['seed'] + 6, 7, 60)))),
            ('perimeter wgs', lambda o: o.perimeter(wgs())),
            ('is_valid', lambda o: o.is_valid)]


@kind
class MultiPolygonKind(Kind):
    name = 'MultiPolygon'
    mutable = True

    def gen(self, r):
        p = dict(seed=int(r.integers(1 << 30)), n=int(r.integers(0, 4)))
        if r.random() < .15:
            p['void'] = int(r.integers(0, p['n'] + 1))
        return p

    def make(self, p):
        items = [make_polygon(p['seed'] + i, i % 2 == 0)[0]
                 for i in range(p['n'])]
        if 'void' in p:
            # a polygon without points is one of them
            items.insert(p['void'], P().geodetic.Polygon([]))
        return P().geodetic.MultiPolygon(items)

    def reads(self, p):
        inside = make_polygon(p['seed'], True)[0]
        G = P().geodetic
        two = G.MultiPolygon([inside, make_polygon(p['seed'] + 9, False)[0]])
        return polygon_reads(p) + [
            ('with many', lambda o: (o.union(two), o.intersection(two),
                                     o.intersects(two), o.touches(two),
                                     o.distance(two))),
            ('len', len), ('items', lambda o: [o[i] for i in range(len(o))]),
            ('contains', lambda o: inside in o)]

    def gen_op(self, r, p):
        return dict(op=str(r.choice(['append', 'iadd'])),
                    seed=int(r.integers(1 << 30)),
                    void=bool(r.random() < .1))

    def apply(self, obj, op, p):
        poly = P().geodetic.Polygon([]) if op.get('void') else \
            make_polygon(op['seed'], False)[0]
        if op['op'] == 'append':
            obj.append(poly)
        else:
            obj += P().geodetic.MultiPolygon([poly])


@kind
class SpheroidKind(Kind):
    name = 'Spheroid'

    def make(self, p):
        r = rng_of(p['seed'])
        if r.random() < .3:
            return P().geodetic.Spheroid()
        return P().geodetic.Spheroid((6378000. + r.uniform(0, 500),
                                      1 / r.uniform(297, 300)))

    def reads(self, p):
        return read_methods([
            'authalic_radius', 'axis_ratio', 'equatorial_circumference',
            'equatorial_radius_of_curvature', 'first_eccentricity_squared',
            'linear_eccentricity', 'mean_radius',
            'polar_radius_of_curvature', 'second_eccentricity_squared',
            'semi_minor_axis', 'volumetric_radius', '__getstate__']) + [
            ('a', lambda o: o.semi_major_axis),
            ('f', lambda o: o.flattening),
            ('geocentric', lambda o: o.geocentric_radius(33.)),
            ('eq', lambda o: (o == o, o != o))]


@kind
class CoordinatesKind(Kind):
    name = 'Coordinates'

    def make(self, p):
        r = rng_of(p['seed'])
        s = None
        if r.random() < .6:
            s = P().geodetic.Spheroid((6378000. + r.uniform(0, 500),
                                       1 / r.uniform(297, 300)))
        return P().geodetic.Coordinates(s)

    def reads(self, p):
        lon, lat = lonlat(p['seed'], 7, 170)
        alt = rng_of(p['seed']).uniform(0, 1000, 7)
        wgs = P().geodetic.Coordinates()
        return [
            ('spheroid', lambda o: o.spheroid),
            ('lla_to_ecef', lambda o, n=1: o.lla_to_ecef(
                lon, lat, alt, num_threads=n)),
            ('ecef_to_lla', lambda o, n=1: o.ecef_to_lla(
                lon * 3e4, lat * 3e4, alt * 5000, num_threads=n)),
            ('transform', lambda o, n=1: o.transform(
                wgs, lon, lat, alt, num_threads=n)),
            ('__getstate__', lambda o: [canon(x)
                                        for x in o.__getstate__()])]


@kind
class CrossoverKind(Kind):
    name = 'Crossover'

    def make(self, p):
        G = P().geodetic
        r = rng_of(p['seed'])
        t = np.linspace(-10, 10, 15)
        lon0 = float(r.uniform(-100, 100))
        a = G.LineString(lon0 + t, t * 2)
        b = G.LineString(lon0 - t + r.uniform(-3, 3), t * 2)
        return G.Crossover(a, b)

    def reads(self, p):
        G = P().geodetic
        return [
            ('exists', lambda o: o.exists()),
            ('search', lambda o: o.search()),
            ('search_all', lambda o: o.search_all()),
            ('nearest', lambda o: o.nearest(o.half_orbit_1[7], 1e7)),
            ('h1', lambda o: o.half_orbit_1), ('h2', lambda o: o.half_orbit_2),
            ('far', lambda o: o.nearest(G.Point(0, 80), None)),
            ('wgs', lambda o: (o.exists(wgs()), o.search(wgs()),
                               o.search_all(wgs()),
                               [o.nearest(o.half_orbit_1[3], 1e7, s, wgs())
                                for s in STRATEGIES]))]


@kind
class GeoHashKind(Kind):
    name = 'GeoHash'

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    precision=int(r.integers(1, 13)))

    def make(self, p):
        r = rng_of(p['seed'])
        return P().GeoHash(r.uniform(-180, 180), r.uniform(-90, 90),
                           p['precision'])

    def reads(self, p):
        return read_methods(['bounding_box', 'center', 'neighbors',
                             'number_of_bits', 'precision', 'reduce', 'area',
                             '__str__'])


@kind
class PeriodKind(Kind):
    name = 'Period'

    def make(self, p):
        r = rng_of(p['seed'])
        b = int(r.integers(0, 1000))
        u = str(r.choice(['ns', 's', 'D']))
        return P().period.Period(
            np.datetime64(b, u), np.datetime64(b + int(r.integers(-3, 50)),
                                               u), bool(r.random() < .8))

    def reads(self, p):
        def q(o):
            u = np.datetime_data(o.begin.dtype)[0]
            return P().period.Period(np.datetime64(400, u),
                                     np.datetime64(600, u), True)

        return [
            ('begin', lambda o: o.begin), ('last', lambda o: o.last),
            ('end', lambda o: o.end()), ('repr', repr), ('str', str),
            ('duration', lambda o: o.duration()),
            ('null', lambda o: o.is_null()),
            ('intersects', lambda o: o.intersects(q(o))),
            ('adjacent', lambda o: o.is_adjacent(q(o))),
            ('contains', lambda o: o.contains(q(o))),
            ('merge', lambda o: repr(o.merge(q(o)))),
            ('intersection', lambda o: repr(o.intersection(q(o)))),
            ('eq', lambda o: (o == o, o != o, o == q(o), o < q(o)))]


@kind
class PeriodListKind(Kind):
    name = 'PeriodList'
    mutable = True

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    n=int(r.choice([0, 1, 2, 7, 20])),
                    unit=str(r.choice(['ns', 's', 'D'])))

    def data(self, p, seed, n):
        r = rng_of(seed)
        b = np.sort(r.integers(0, 500, n))
        e = b + r.integers(0, 30, n)
        if r.random() < .6 and n:
            b = np.arange(n) * 40
            e = b + r.integers(1, 39, n)
        return np.vstack([b, e]).astype(f'M8[{p["unit"]}]')

    def make(self, p):
        return P().period.PeriodList(self.data(p, p['seed'], p['n']))

    def reads(self, p):
        u = p['unit']
        d = np.arange(0, 560, 7).astype(f'M8[{u}]')
        return [
            ('periods', lambda o: o.periods), ('len', len), ('repr', repr),
            ('sorted', lambda o: o.are_periods_sorted_and_disjointed()),
            ('duration', lambda o: o.duration()),
            ('join', lambda o: o.join_adjacent_periods(
                np.timedelta64(3, u))),
            ('within', lambda o: o.within(P().period.Period(
                np.datetime64(50, u), np.datetime64(300, u), True))),
            ('intersection', lambda o: o.intersection(P().period.Period(
                np.datetime64(50, u), np.datetime64(300, u), True))),
            ('filter', lambda o: o.filter(np.timedelta64(10, u))),
            ('cross', lambda o: o.cross_a_period(d)),
            ('belong', lambda o: o.belong_to_a_period(d)),
            ('close', lambda o: [o.is_it_close(x, np.timedelta64(2, u))
                                 for x in d[::9]])]

    def gen_op(self, r, p):
        k = r.random()
        if k < .3:
            return dict(op='sort')
        if k < .5:
            return dict(op='join', eps=int(r.integers(0, 10)))
        return dict(op='merge', seed=int(r.integers(1 << 30)),
                    n=int(r.choice([0, 1, 4])))

    def apply(self, obj, op, p):
        if op['op'] == 'sort':
            obj.sort()
        elif op['op'] == 'join':
            obj.join_adjacent_periods(np.timedelta64(op['eps'], p['unit']),
                                      inplace=True)
        else:
            obj.merge(P().period.PeriodList(
                self.data(p, op['seed'], op['n'])))


@kind
class CorePeriodListKind(PeriodListKind):
    name = 'core.PeriodList'

    def build(self, p, seed, n):
        d = self.data(p, seed, n).astype('i8')
        a = np.zeros(n, [('begin', 'i8'), ('last', 'i8')])
        a['begin'], a['last'] = d
        return C().PeriodList(a)

    def make(self, p):
        return self.build(p, p['seed'], p['n'])

    def reads(self, p):
        d = np.arange(0, 560, 7)
        return [
            ('periods', lambda o: o.periods), ('len', len),
            ('sorted', lambda o: o.are_periods_sorted_and_disjointed()),
            ('join', lambda o: o.join_adjacent_periods(3)),
            ('within', lambda o: o.within(C().Period(50, 300, True))),
            ('intersection', lambda o: o.intersection(
                C().Period(50, 300, True))),
            ('filter', lambda o: o.filter(10)),
            ('cross', lambda o: o.cross_a_period(d)),
            ('belong', lambda o: o.belong_to_a_period(d)),
            ('close', lambda o: [o.is_it_close(int(x), 2) for x in d[::9]])]

    def gen_op(self, r, p):
        op = super().gen_op(r, p)
        return dict(op='sort') if op['op'] == 'join' else op

    def apply(self, obj, op, p):
        if op['op'] == 'sort':
            obj.sort()
        else:
            obj.merge(self.build(p, op['seed'], op['n']))


@kind
class InterpolatorKind(Kind):
    """Interpolator objects and enumerations."""
    name = 'Interpolator'
    NAMES = ['Bilinear2D', 'Nearest2D', 'InverseDistanceWeighting2D',
             'Bilinear3D', 'Nearest3D', 'InverseDistanceWeighting3D',
             'TemporalBilinear3D', 'TemporalNearest3D',
             'TemporalInverseDistanceWeighting3D']

    def gen(self, r):
        return dict(seed=int(r.integers(1 << 30)),
                    cls=str(r.choice(self.NAMES)), p=int(r.integers(1, 6)))

    def make(self, p):
        cls = getattr(C(), p['cls'])
        if 'Inverse' in p['cls']:
            return cls(p['p'])
        return cls()

    def reads(self, p):
        t = p['cls'].startswith('Temporal')
        d = 2 if p['cls'].endswith('2D') else 3
        g = dict(seed=p['seed'], dim=d, temporal=t, dtype='float64',
                 n=[6, 6, 3, 3], circle=False, nan=0)
        grid, axes, _ = ops.make_grid(g)
        pts = ops.make_points(p['seed'], axes, 7, 0)
        fn = C().bivariate_float64 if d == 2 else C().trivariate_float64
        return [('interpolate', lambda o, n=1: fn(grid, *pts, o,
                                                  num_threads=n))]


@kind
class EnumKind(Kind):
    name = 'Enum'
    NAMES = ['AxisBoundary', 'CovarianceFunction', 'RadialBasisFunction',
             'WindowFunction', 'fill.FirstGuess', 'fill.ValueType']

    def gen(self, r):
        return dict(seed=0, cls=str(r.choice(self.NAMES)),
                    i=int(r.integers(0, 20)))

    def make(self, p):
        cls = C()
        for n in p['cls'].split('.'):
            cls = getattr(cls, n)
        m = list(cls.__members__.values())
        return m[p['i'] % len(m)]

    def reads(self, p):
        return [('name', lambda o: o.name), ('value', lambda o: o.value),
                ('repr', repr), ('type', lambda o: type(o).__name__)]


@kind
class FunctionsKind(Kind):
    """Functions without an object."""
    name = 'functions'

    def make(self, p):
        r = rng_of(p['seed'])
        lon, lat = lonlat(p['seed'], 20, 170)
        return dict(lon=lon, lat=lat,
                    dates=r.integers(-10**9, 2 * 10**9, 20).astype('M8[s]'),
                    v=np.where(r.random(30) < .3, np.nan, r.normal(size=30)),
                    m=np.where(r.random((6, 7)) < .3, np.nan,
                               r.normal(size=(6, 7))))

    def reads(self, p):
        D = C().dateutils
        H = P().geohash

        def vec(o):
            w = o['v'].copy()
            C().fill.vector_float64(w)
            return w

        def mat(o):
            w = o['m'].copy()
            C().fill.matrix_float64(w)
            return w

        def gs(o, n=1):
            w = np.asfortranarray(o['m'])
            return C().fill.gauss_seidel_float64(
                w, C().fill.FirstGuess.ZonalAverage, False, 4, 1e-4, 1.1,
                n), w

        def interp(o):
            x = C().Axis(np.arange(20.) * 3)
            return P().interpolate1d(x, o['lat'], o['lon'] / 3 + 30,
                                     half_window_size=4)

        def cross(o):
            t = np.linspace(-10, 10, 15)
            return C().geodetic.calculate_crossover(t, t * 2, -t + 1, t * 2,
                                                    1e7)

        def cross_list(o):
            t = np.linspace(-10, 10, 15)
            return C().geodetic.calculate_crossover_list(
                t, t * 2, -t + 1, t * 2, 1e7)

        def swath(o):
            t = np.linspace(-10, 10, 9)
            return C().geodetic.calculate_swath(t, t * 2, 2000., 2000., 3)

        return [(n, lambda o, n=n: getattr(D, n)(o['dates']))
                for n in ('date', 'datetime', 'isocalendar', 'time',
                          'timedelta_since_january', 'weekday')] + [
            ('encode', lambda o: H.encode(o['lon'], o['lat'], 5)),
            ('decode', lambda o: H.decode(H.encode(o['lon'], o['lat'], 4))),
            ('area', lambda o: H.area(H.encode(o['lon'], o['lat'], 4))),
            ('area wgs', lambda o: H.area(H.encode(o['lon'], o['lat'], 4),
                                          wgs())),
            ('zoom out', lambda o: H.transform(
                H.encode(o['lon'], o['lat'], 5), 3)),
            ('same zoom', lambda o: H.transform(
                H.encode(o['lon'], o['lat'], 3), 3)),
            ('date strings', lambda o: [
                D.datetime64_to_str(int(x), f'datetime64[{u}]')
                for u in UNITS for x in o['dates'].astype('i8')[:3] //
                (10**6 if u in 'YMWDhm' else 1)]),
            ('transform', lambda o: H.transform(
                H.encode(o['lon'][:3], o['lat'][:3], 2), 3)),
            ('where', lambda o: H.where(
                H.encode(o['lon'], o['lat'], 2).reshape(4, 5))),
            ('boxes', lambda o: H.bounding_boxes(None, 1)),
            ('int64', lambda o: H.int64.encode(o['lon'], o['lat'], 40)),
            ('int64 decode', lambda o: H.int64.decode(
                H.int64.encode(o['lon'], o['lat'], 40), 40)),
            ('int64 neighbors', lambda o: H.int64.neighbors(
                int(H.int64.encode(o['lon'], o['lat'], 40)[0]), 40)),
            ('vector', vec), ('matrix', mat), ('gauss_seidel', gs),
            ('interpolate1d', interp), ('crossover', cross),
            ('crossover list', cross_list), ('swath', swath),
            ('normalize', lambda o: P().geodetic.normalize_longitudes(
                o['lon'] * 3)),
            ('distances', lambda o, n=1: P().geodetic.coordinate_distances(
                o['lon'], o['lat'], o['lat'], o['lon'] / 2,
                num_threads=n)),
            ('strategies', lambda o, n=1: [
                P().geodetic.coordinate_distances(
                    o['lon'], o['lat'], o['lat'], o['lon'] / 2, strategy=s,
                    wgs=wgs(), num_threads=n) for s in STRATEGIES]),
        ]
