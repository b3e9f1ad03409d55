"""Calls that must be rejected, for every kind of objects of the zoo.

Each entry is (name, function(object, random generator)): the call has no
valid meaning (arrays whose sizes do not match, wrong number of dimensions,
index outside the container, ...), so it has to raise an exception.
"""
import numpy as np

import ops
import zoo
from zoo import C, P

HUGE = [1 << 31, (1 << 31) - 1, 1 << 40, (1 << 62), (1 << 63) - 1]


def index_of(r, n):
    """An index outside [0, n)."""
    k = int(r.integers(0, 4))
    return [n, n + int(r.integers(1, 50)), int(r.choice(HUGE)),
            -n - 1 - int(r.integers(0, 50))][k]


def two(r):
    """Two sizes that differ."""
    n = int(r.integers(0, 40))
    m = int(r.integers(0, 40))
    return (n, m) if n != m else (n, n + 1 + int(r.integers(0, 9)))


# The arguments of the call: they are compared once the call is refused
KEPT = []


def keep(v):
    KEPT.append((v, zoo.canon(v)))
    return v


def modified():
    """The arguments that are not what they were, since the last check."""
    out = [v for v, was in KEPT if zoo.canon(v) != was]
    KEPT.clear()
    return out


def vec(r, n, dtype='f8'):
    return keep(r.uniform(0, 5, n).astype(dtype))


def split(r, count):
    """Which of `count` vectors have the other size: not all, at least one."""
    u = r.random()
    if u < .4:
        k = int(r.integers(0, count))
        which = [i == k for i in range(count)]
    elif u < .7:
        k = int(r.integers(1, count))
        which = [i >= k for i in range(count)]
    else:
        which = [bool(r.integers(0, 2)) for _ in range(count)]
        if len(set(which)) == 1:
            which[int(r.integers(0, count))] = not which[0]
    return which


def mismatched(r, count, dtype='f8', same=None):
    """`count` vectors that do not have the same size."""
    n, m = two(r)
    return [vec(r, m if w else n, dtype) for w in split(r, count)]


def matrix_for(v, r):
    """The vectors, one of them becomes a matrix."""
    k = int(r.integers(0, len(v)))
    v = list(v)
    v[k] = np.stack([v[k], v[k]])
    return v


def axis_calls(p):
    def q(v):
        return v

    out = [
        ('item', lambda o, r: o[index_of(r, len(o))]),
        ('find_index shape', lambda o, r: o.find_index(
            values(r, (3, 2)), bounded=False)),
        ('find_indexes shape', lambda o, r: o.find_indexes(
            values(r, (2, 3)))),
    ]

    def values(r, shape):
        v = r.uniform(0, 5, shape)
        k = p['kind']
        if k == 'AxisInt64':
            return v.astype('i8')
        if k == 'TemporalAxis':
            return v.astype('i8').astype('M8[s]')
        return v

    if p['kind'] == 'TemporalAxis':
        out += [
            ('cast type', lambda o, r: o.safe_cast(vec(r, 4))),
            ('find type', lambda o, r: o.find_index(vec(r, 4))),
        ]
    else:
        out.append(('slice step', lambda o, r: o[::0]))
    return out


def unordered(r):
    v = np.arange(2. + int(r.integers(2, 9)))
    k = int(r.integers(1, len(v)))
    v[k] = v[k - 1]
    if r.random() < .4:
        v = np.concatenate([v, v[::-1]])
    return v


def dask_weights(r):
    import dask.array as da
    n, m = two(r)
    return getattr(P(), str(r.choice(
        ['DescriptiveStatistics', 'StreamingHistogram'])))(
            da.from_array(vec(r, n + 1), [n + 1]),
            weights=da.from_array(vec(r, m + 1), [m + 1]))


def to_xarray(r):
    from pyinterp.geohash import converter
    c = np.array([b'e', b's', b'u'])
    k = int(r.integers(0, 3))
    if k == 0:
        return converter.to_xarray(c, keep(r.uniform(0, 1, int(r.choice(
            [0, 1, 2, 4])))))
    if k == 1:
        return converter.to_xarray(c, keep(r.uniform(0, 1, (3, 1))))
    return converter.to_xarray(keep(r.uniform(0, 1, 3)),
                               keep(r.uniform(0, 1, 3)))


MAKERS = [
    ('Axis empty', lambda r: C().Axis(np.array([]))),
    ('Axis order', lambda r: C().Axis(unordered(r))),
    ('Axis shape', lambda r: C().Axis(np.zeros((3, 2)))),
    ('AxisInt64 empty', lambda r: C().AxisInt64(np.array([], 'i8'))),
    ('AxisInt64 order', lambda r: C().AxisInt64(
        np.array([1, 2, 2, 3, 1]))),
    ('TemporalAxis type', lambda r: C().TemporalAxis(np.arange(5.))),
    ('TemporalAxis order', lambda r: C().TemporalAxis(
        np.array([3, 1, 2], 'M8[s]'))),
    ('Grid2D shape', lambda r: grid_shape(r, 2)),
    ('Grid3D shape', lambda r: grid_shape(r, 3)),
    ('Grid4D shape', lambda r: grid_shape(r, 4)),
    ('Grid2D type', lambda r: P().Grid2D(
        C().Axis(np.arange(3.)), C().Axis(np.arange(3.)),
        np.zeros((3, 3), 'c16'))),
    ('Binning1D dtype', lambda r: P().Binning1D(
        C().Axis(np.arange(3.)), dtype=np.dtype('i4'))),
    ('Binning2D dtype', lambda r: P().Binning2D(
        C().Axis(np.arange(3.)), C().Axis(np.arange(3.)),
        dtype=np.dtype('i4'))),
    ('RTree dtype', lambda r: P().RTree(dtype=np.dtype('i4'))),
    ('Statistics axis', lambda r: P().DescriptiveStatistics(
        np.zeros((4, 3)), axis=[int(r.integers(2, 9))])),
    ('Statistics weights', lambda r: P().DescriptiveStatistics(
        np.zeros((4, 3)), weights=np.zeros((3, 4)))),
    ('Histogram axis', lambda r: P().StreamingHistogram(
        np.zeros((4, 3)), axis=[int(r.integers(2, 9))])),
    ('Histogram weights', lambda r: P().StreamingHistogram(
        np.zeros((4, 3)), weights=np.zeros(12))),
    ('LineString sizes', lambda r: P().geodetic.LineString(
        *mismatched(r, 2))),
    ('Polygon points', lambda r: P().geodetic.Polygon([1, 2, 3])),
    ('Polygon rings', lambda r: P().geodetic.Polygon(
        [P().geodetic.Point(i, i * i) for i in range(4)], [3])),
    ('MultiPolygon items', lambda r: P().geodetic.MultiPolygon([1, 'x'])),
    ('Box', lambda r: P().geodetic.Box(1, 2)),
    ('Point wkt', lambda r: P().geodetic.Point.read_wkt(
        'POINT(' * int(r.integers(1, 50)))),
    ('Polygon wkt', lambda r: P().geodetic.Polygon.read_wkt(
        'POLYGON((0 0, 1 1, z')),
    ('GeoHash precision', lambda r: P().GeoHash(
        1., 2., int(r.choice([0, 13, 40, 1 << 31])))),
    ('GeoHash string', lambda r: P().GeoHash.from_string('a' * 30)),
    ('PeriodList shape', lambda r: P().period.PeriodList(
        np.zeros((3, 4), 'M8[s]'))),
    ('TemporalAxis shape', lambda r: C().TemporalAxis(
        np.arange(6).astype('M8[s]').reshape(2, 3))),
    ('TemporalAxis durations', lambda r: C().TemporalAxis(
        np.arange(6).astype('m8[s]')).safe_cast(
            np.arange(3).astype('M8[s]'))),
    ('LineString wkt', lambda r: P().geodetic.LineString.read_wkt(
        str(r.choice(['LINESTRING(0 0, 1', 'POINT(1 2)', 'x', ''])))),
    ('LineString shapes', lambda r: P().geodetic.LineString(
        *matrix_for([vec(r, int(r.integers(1, 9)))] * 2, r))),
    ('MultiPolygon wkt', lambda r: P().geodetic.MultiPolygon.read_wkt(
        str(r.choice(['MULTIPOLYGON(((0 0, 1', 'POINT(1 2)', 'x'])))),
    ('Box wkt', lambda r: P().geodetic.Box.read_wkt(
        str(r.choice(['BOX(0 0, 1', 'POINT(1 2)', 'x'])))),
    ('Statistics vector axis', lambda r: P().DescriptiveStatistics(
        np.zeros((4, 3)), axis=[-int(r.integers(1, 9))])),
    ('Statistics weights vector', lambda r: P().DescriptiveStatistics(
        np.zeros((4, 3)), weights=np.zeros(int(r.integers(1, 20))))),
    ('GeoHash code', lambda r: P().GeoHash.from_string(
        str(r.choice(['', 'a', 'ail', 'e0i', ' '])))),
    ('PeriodList vector', lambda r: P().period.PeriodList(
        np.zeros(4, 'M8[s]'))),
    ('Grid increasing axes', lambda r: getattr(
        P(), f'Grid{int(r.integers(2, 3))}D')(
            *[keep(C().Axis(np.arange(3.)[::int(r.choice([-1, 1]))]))
              for _ in range(2)], keep(r.uniform(0, 1, (3, 3))),
            increasing_axes=str(r.choice(['none', 'yes', ''])))),
    ('Histogram2D dtype', lambda r: P().Histogram2D(
        C().Axis(np.arange(3.)), C().Axis(np.arange(3.)),
        dtype=np.dtype(str(r.choice(['i4', 'M8[s]', 'c16']))))),
    ('Statistics dtype', lambda r: getattr(P(), str(r.choice(
        ['DescriptiveStatistics', 'StreamingHistogram'])))(
            vec(r, 4), dtype=np.dtype(str(r.choice(['i4', 'f2', 'c16']))))),
    ('Statistics dask weights', lambda r: dask_weights(r)),
    ('to_xarray shapes', lambda r: to_xarray(r)),
    ('loess vector', lambda r: P().fill.vector(
        [1., float('nan'), 3.])),
    ('PeriodList core', lambda r: P().period.PeriodList(
        P().period.PeriodList.empty()._instance)),
    ('PeriodList type', lambda r: P().period.PeriodList(np.zeros((2, 4)))),
]


def grid_shape(r, d):
    n = [int(r.integers(3, 6)) for _ in range(d)]
    axes = []
    for k in n:
        v = np.arange(float(k))
        if r.random() < .5:
            v = v[::-1].copy()
        axes.append(keep(C().Axis(v)))
    shape = list(n)
    k = int(r.integers(0, d))
    shape[k] += int(r.choice([-1, 1, 3]))
    if r.random() < .3:
        shape = shape[:-1] if r.random() < .5 else shape + [2]
    inc = str(r.choice(['', 'inplace', 'inplace', 'copy']))
    kw = dict(increasing_axes=inc) if inc else {}
    return getattr(P(), f'Grid{d}D')(
        *axes, keep(r.uniform(0, 1, shape)), **kw)


def grid_calls(p):
    g = p['grid']
    d = g['dim']
    fn = {2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}[d]
    axes, _ = zoo.KINDS['Grid'].axes(p)

    def points(r, n):
        v = ops.make_points(int(r.integers(1 << 30)), axes, n, .0)
        v = [np.asarray(x) for x in v]
        if g['temporal']:
            v[2] = v[2].astype('M8[ns]')
        return [keep(x) for x in v]

    def sizes(r):
        n, m = two(r)
        a, b = points(r, n), points(r, m)
        return [b[i] if w else a[i] for i, w in enumerate(split(r, d))]

    def outside(r):
        v = points(r, 5)
        k = int(r.integers(0, 2))
        v[k] = v[k].astype('f8').copy()
        v[k][int(r.integers(0, 5))] = 1e6
        return v

    def kind(r):
        return str(r.choice(['bilinear', 'nearest',
                             'inverse_distance_weighting']))

    out = [
        ('sizes', lambda o, r: getattr(P(), fn)(
            o, *sizes(r), interpolator=kind(r),
            num_threads=int(r.integers(0, 4)))),
        ('shapes', lambda o, r: getattr(P(), fn)(
            o, *matrix_for(points(r, 4), r), interpolator=kind(r))),
        ('interpolator', lambda o, r: getattr(P(), fn)(
            o, *points(r, 4), interpolator='none')),
        ('array', lambda o, r: setattr(o, 'array', 3)),
        ('not a grid', lambda o, r: getattr(P(), fn)(
            [o._instance.x, o._instance.y, o._instance.array, None, 3][
                int(r.integers(0, 5))], *points(r, 4))),
        ('other dimension', lambda o, r: getattr(P(), {
            2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}[
                d % 3 + 2])(o, *[vec(r, 3)] * (d % 3 + 2))),
    ]
    if g['dtype'].startswith('float'):
        out += [
            ('bicubic sizes', lambda o, r: P().bicubic(
                o, *sizes(r), nx=2, ny=2, fitting_model='bicubic',
                num_threads=int(r.integers(0, 3)))),
            ('spline model', lambda o, r: P().bicubic(
                o, *points(r, 3), fitting_model='none')),
            ('boundary', lambda o, r: P().bicubic(
                o, *points(r, 3), boundary='none')),
            ('nx', lambda o, r: P().bicubic(
                o, *points(r, 3), nx=0, ny=int(r.integers(0, 3)))),
            ('loess type', lambda o, r: P().fill.loess(
                o, 2, 2, value_type='none')),
            ('loess window', lambda o, r: P().fill.loess(o, 0, 2)),
        ]
        if d > 2:
            def missing(o, r):
                v = points(r, 3)
                kw = dict(zip('zu', v[2:]))
                del kw[str(r.choice(list(kw)))]
                return P().bicubic(o, v[0], v[1], nx=2, ny=2,
                                   fitting_model=str(r.choice(
                                       ['bicubic', 'linear'])), **kw)

            out.append(('bicubic missing', missing))
        if d < 4:
            out += [
                ('gauss guess', lambda o, r: P().fill.gauss_seidel(
                    o, first_guess='none')),
                ('gauss threads', lambda o, r: P().fill.gauss_seidel(
                    o, relaxation=3.)),
            ][:1]
    if not p['grid'].get('circle') and not g['temporal']:
        out.append(('bounds', lambda o, r: getattr(P(), fn)(
            o, *outside(r), interpolator=kind(r), bounds_error=True)))
    return out


def backend_calls(p):
    k = zoo.KINDS['Backend']
    g = p['grid']
    d = g['dim']
    fn = {2: 'bivariate', 3: 'trivariate', 4: 'quadrivariate'}[d]

    def at(r, n=3):
        axes, _ = ops.make_grid(g)[1:]
        v = ops.make_points(int(r.integers(1 << 30)), axes, n, .0)
        v = [np.asarray(x) for x in v]
        if g['temporal']:
            v[2] = v[2].astype('M8[ns]')
        return dict(zip(k.NAMES, [keep(x) for x in v]))

    def ask(o, c, r, **kw):
        if p['wrap']:
            return o(c, num_threads=int(r.integers(0, 3)), **kw)
        u = r.random()
        if 'method' in kw:
            kw['interpolator'] = kw.pop('method')
        if u < .3 and not kw:
            return o.bicubic(c, nx=2, ny=2)
        return getattr(o, fn)(c, **kw)

    def less(o, r):
        c = at(r)
        del c[k.NAMES[int(r.integers(0, d))]]
        return ask(o, c, r)

    def more(o, r):
        return ask(o, dict(at(r), **{'other': np.zeros(3)}), r)

    def other(o, r):
        c = at(r)
        n = k.NAMES[int(r.integers(0, d))]
        c['other'] = c.pop(n)
        return ask(o, c, r)

    def sizes(o, r):
        c, e = at(r, 3), at(r, 4)
        n = k.NAMES[int(r.integers(0, d))]
        c[n] = e[n]
        return ask(o, c, r)

    def build(o, r):
        """An array that has not the dimensions of the grid."""
        from pyinterp.backends import xarray as backend
        a = k.array(p)
        u = int(r.integers(0, 5))
        if u > 2:
            # no interpolator for as many (or few) dimensions
            import xarray
            n = 1 if u == 3 else int(r.choice([5, 6]))
            s = a.shape[:n] + (2, ) * (n - d)
            t = a.dims[:n] + ('e', 'f', 'g', 'h')[:max(n - d, 0)]
            c = {x: y for x, y in a.coords.items() if x in t}
            for x in t[d:]:
                c[x] = xarray.DataArray(np.arange(2.), dims=(x, ))
            return backend.RegularGridInterpolator(xarray.DataArray(
                np.zeros(s), coords=c, dims=t))
        if u == 0:
            n = [x for x in (2, 3, 4) if x != d]
            return getattr(backend, f'Grid{int(r.choice(n))}D')(a)
        for c in a.coords.values():
            c.attrs = {} if u == 1 else {'units': 'degrees_east'}
        return backend.RegularGridInterpolator(a)

    out = [
        ('not a mapping', lambda o, r: ask(o, list(at(r).values()), r)),
        ('less', less), ('more', more), ('other', other), ('sizes', sizes),
        ('method', lambda o, r: ask(o, at(r), r, method='none')),
        ('build', build),
    ]
    if g['temporal']:
        def time(o, r):
            c = at(r)
            c[k.NAMES[2]] = c[k.NAMES[2]].astype('i8')
            return ask(o, c, r)
        out.append(('time', time))
    return out


def tree_calls(p):
    t = p['dtype']

    def cols(r, n):
        return r.uniform(0, 5, (n, int(r.choice([0, 1, 4, 5])))).astype(t)

    def both(r):
        n, m = two(r)
        return (r.uniform(0, 5, (n, int(r.choice([2, 3])))).astype(t),
                vec(r, m, t))

    def which(r):
        return 'insert' if r.random() < .5 else 'packing'

    def read(o, r, c):
        k = int(r.integers(0, 6))
        n = int(r.integers(0, 3))
        if k == 0:
            return o.query(c, num_threads=n)
        if k == 1:
            return o.inverse_distance_weighting(c, num_threads=n)
        if k == 2:
            return o.radial_basis_function(c, num_threads=n)
        if k == 3:
            return o.window_function(c, radius=1e6, num_threads=n)
        if k == 4:
            return o.universal_kriging(c, num_threads=n)
        return o.value(c, 1e6, num_threads=n)

    q = np.zeros((3, 2), t)
    return [
        ('columns', lambda o, r: getattr(o, which(r))(
            cols(r, 5), vec(r, 5, t))),
        ('sizes', lambda o, r: getattr(o, which(r))(*both(r))),
        ('vector', lambda o, r: getattr(o, which(r))(
            vec(r, 6, t), vec(r, 6, t))),
        ('values', lambda o, r: getattr(o, which(r))(
            np.zeros((6, 2), t), np.zeros((6, 1), t))),
        ('query columns', lambda o, r: read(o, r, cols(r, 4))),
        ('query vector', lambda o, r: read(o, r, vec(r, 4, t))),
        ('rbf', lambda o, r: o.radial_basis_function(q, rbf='none')),
        ('wf', lambda o, r: o.window_function(q, radius=1., wf='none')),
        ('covariance', lambda o, r: o.universal_kriging(
            q, covariance='none')),
        ('drift', lambda o, r: o.universal_kriging(
            q, drift_function='none')),
        ('k', lambda o, r: o.query(q, k=-int(r.integers(1, 99)))),
        ('threads', lambda o, r: o.query(q, num_threads=-1)),
        ('epsilon', lambda o, r: o.radial_basis_function(q, **epsilon(r))),
        ('wf argument', lambda o, r: o.window_function(
            q, radius=1., **window(r))),
        ('state', lambda o, r: type(o).__new__(type(o)).__setstate__(
            (o.__getstate__() * 2)[:int(r.choice([0, 1, 3, 4]))])),
    ]


def epsilon(r):
    """The functions which have no parameter."""
    return dict(rbf=str(r.choice(['cubic', 'linear', 'thin_plate'])),
                epsilon=float(r.choice([0., 1., .1])))


def window(r):
    """Arguments the window functions cannot have."""
    k = int(r.integers(0, 4))
    if k == 0:
        return dict(wf='lanczos', arg=float(r.choice([0, .5, -1])))
    if k == 1:
        return dict(wf='parzen', arg=float(r.choice([-.5, -3.])))
    if k == 2:
        return dict(wf='gaussian')
    return dict(wf=str(r.choice([
        'blackman', 'blackman_harris', 'boxcar', 'flat_top', 'hamming',
        'nuttall', 'parzen_swot'])), arg=float(r.choice([0., 1.])))


def other_type(t):
    return np.dtype('float32' if np.dtype(t) == np.dtype('float64')
                    else 'float64')


def geotree_calls(p):
    def read(o, r, *c):
        k = int(r.integers(0, 4))
        n = int(r.integers(0, 3))
        if k == 0:
            return o.query(*c, num_threads=n)
        if k == 1:
            return o.inverse_distance_weighting(*c, num_threads=n)
        if k == 2:
            return o.radial_basis_function(*c, num_threads=n)
        return o.window_function(*c, radius=1e6, num_threads=n)

    def which(r):
        return 'insert' if r.random() < .5 else 'packing'

    return [
        ('sizes', lambda o, r: getattr(o, which(r))(*mismatched(r, 3))),
        ('shapes', lambda o, r: getattr(o, which(r))(
            *matrix_for([vec(r, 4)] * 3, r))),
        ('query sizes', lambda o, r: read(o, r, *mismatched(r, 2))),
        ('query shapes', lambda o, r: read(
            o, r, *matrix_for([vec(r, 4)] * 2, r))),
        ('rbf', lambda o, r: o.radial_basis_function(
            vec(r, 3), vec(r, 3), rbf='none')),
        ('wf', lambda o, r: o.window_function(
            vec(r, 3), vec(r, 3), radius=1., wf='none')),
        ('epsilon', lambda o, r: o.radial_basis_function(
            vec(r, 3), vec(r, 3), **epsilon(r))),
        ('wf argument', lambda o, r: o.window_function(
            vec(r, 3), vec(r, 3), radius=1., **window(r))),
    ]


def binning_calls(p):
    t = p['dtype']
    n = 2 if p['kind'] == 'Binning1D' else 3

    def other(o, r):
        q = dict(p, nx=p['nx'] + int(r.integers(1, 4)))
        x = zoo.KINDS[p['kind']].make(q)
        o._instance += x._instance

    def filled(x, r):
        """Merged bins hold samples, or the cells have nothing to lose."""
        if r.random() < .7:
            v = [vec(r, 9, t) for _ in range(n)]
            x.push(*v)
        return x

    def origin(o, r):
        """One axis differs: by its origin, its step or a single point."""
        k = int(r.integers(0, n - 1))
        a = [np.arange(p['nx']) * 2.]
        if n == 3:
            a.append(np.arange(p['ny']) * 2.)
        kw = {}
        m = len(a[k])
        u = int(r.integers(0, 3))
        if u == 0 or m < 3:
            a[k] = a[k] + float(r.choice([.125, 2., -1.]))
        elif u == 1:
            a[k] = a[k] * 1.5
        else:
            a[k][int(r.integers(0, m))] += .25
        if p.get('wgs') and p['kind'] == 'Binning2D':
            kw['wgs'] = P().geodetic.Spheroid()
        a = [C().Axis(v) for v in a]
        cls = type(o)
        x = cls(*a, dtype=np.dtype(t), **kw)
        o._instance += filled(x, r)._instance

    def system(o, r):
        """Bins of another reference system."""
        a = zoo.KINDS[p['kind']].axes(p)
        S = P().geodetic.Spheroid
        if p['wgs']:
            g = S(6370000., 1 / 298.) if r.random() < .5 else None
        else:
            g = S()
        o._instance += filled(P().Binning2D(*a, g, np.dtype(t)),
                              r)._instance

    def precision(o, r):
        """Bins that hold the other type of values."""
        x = zoo.KINDS[p['kind']].make(dict(p, dtype=str(other_type(t))))
        if r.random() < .7:
            x.push(*[vec(r, 9, x.dtype) for _ in range(n)])
        u = int(r.integers(0, 3))
        if u == 0:
            return o + x
        if u == 1:
            return x + o
        o._instance += x._instance

    out = [
        ('merge precision', precision),
        ('push sizes', lambda o, r: o.push(*mismatched(r, n, t))),
        ('push shapes', lambda o, r: o.push(
            *matrix_for([vec(r, 4, t)] * n, r))),
        ('push text', lambda o, r: o.push(*[['x']] * n)),
        ('merge sizes', other), ('merge axes', origin),
        ('merge type', lambda o, r: o._instance.__iadd__(3)),
        ('variable', lambda o, r: o.variable('nothing')),
    ]
    if n == 2:
        out.append(('weights', lambda o, r: o.push(*mismatched(r, 3, t))))
    if p['kind'] == 'Binning2D':
        out.append(('merge system', system))
    return out


def stat_calls(p):
    def shape(o, r):
        q = dict(p, shape=[p['shape'][0] + 1 + int(r.integers(0, 3)),
                           p['shape'][1] + 1 + int(r.integers(0, 3))])
        o += zoo.KINDS[p['kind']].make(q)

    def folded(o, r):
        """As many statistics, in another shape."""
        n = np.asarray(o.count()).size
        t = np.dtype(p['dtype'])
        other = getattr(P(), p['kind'])
        v = r.uniform(0, 5, (3, n, 1) if r.random() < .5 else (3, 1, n))
        o += other(v.astype(t), axis=(0, ), dtype=t)

    def precision(o, r):
        """The statistics of the other type of values."""
        x = zoo.KINDS[p['kind']].make(dict(p, dtype=str(other_type(
            p['dtype']))))
        u = int(r.integers(0, 4))
        if u == 0 and p['kind'] == 'DescriptiveStatistics':
            return o + x
        if u == 1 and p['kind'] == 'DescriptiveStatistics':
            return x + o
        if u == 2:
            o += x
        else:
            o._instance += x._instance

    def kind(o, r):
        """The other class of statistics."""
        x = zoo.KINDS['StreamingHistogram' if p['kind'] != 'StreamingHistogram'
                      else 'DescriptiveStatistics'].make(p)
        if r.random() < .5:
            o += x
        else:
            o._instance += x._instance

    out = [('merge folded', folded), ('merge precision', precision),
           ('merge kind', kind), ('merge type', lambda o, r: o.__iadd__(3)),
           ('merge other', lambda o, r: o._instance.__iadd__(3))]
    if p['axis'] >= 0:
        out.append(('merge shape', shape))
    if p['kind'] == 'StreamingHistogram':
        out.append(('resize', lambda o, r: o._instance.resize(
            int(r.choice([-1, -5, -(1 << 40)])))))
    return out


def polygon_calls(p):
    def pts(r):
        return mismatched(r, 2)

    out = [
        ('covered sizes', lambda o, r: o.covered_by(
            *pts(r), num_threads=int(r.integers(0, 3)))),
        ('covered shapes', lambda o, r: o.covered_by(
            *matrix_for([vec(r, 4)] * 2, r))),
        ('distance', lambda o, r: o.distance('x')),
    ]
    if p['kind'] != 'Box':
        out += [('union', lambda o, r: o.union(3)),
                ('intersection', lambda o, r: o.intersection(None))]
    if p['kind'] == 'MultiPolygon':
        out += [('item', lambda o, r: o[index_of(r, len(o))]),
                ('append', lambda o, r: o.append(3)),
                ('iadd', lambda o, r: o.__iadd__(3))]
    if p['kind'] == 'Box':
        out.append(('corner', lambda o, r: setattr(o, 'min_corner', 3)))
    return out


def line_calls(p):
    return [
        ('item', lambda o, r: o[index_of(r, len(o))]),
        ('append', lambda o, r: o.append(3)),
        ('closest sizes', lambda o, r: o.closest_point(
            *mismatched(r, 2), num_threads=int(r.integers(0, 3)))),
        ('closest shapes', lambda o, r: o.closest_point(
            *matrix_for([vec(r, 4)] * 2, r))),
        ('intersects', lambda o, r: o.intersects(3)),
    ]


def coordinates_calls(p):
    return [
        ('ecef sizes', lambda o, r: o.ecef_to_lla(
            *mismatched(r, 3), num_threads=int(r.integers(0, 3)))),
        ('lla sizes', lambda o, r: o.lla_to_ecef(
            *mismatched(r, 3), num_threads=int(r.integers(0, 3)))),
        ('transform sizes', lambda o, r: o.transform(
            P().geodetic.Coordinates(), *mismatched(r, 3),
            num_threads=int(r.integers(0, 3)))),
        ('shapes', lambda o, r: o.ecef_to_lla(
            *matrix_for([vec(r, 4)] * 3, r))),
    ]


def period_list_calls(p):
    return [
        ('merge type', lambda o, r: o.merge(3)),
        ('cross shape', lambda o, r: o.cross_a_period(
            np.zeros((2, 2), 'M8[s]'))),
    ]


def function_calls(p):
    H = P().geohash
    G = P().geodetic

    def codes(r, size, n=5):
        return np.array([b'e' * size] * n)

    def odd_dates(r):
        """Arrays that are not vectors of dates."""
        n = int(r.integers(1, 6))
        k = int(r.integers(0, 4))
        if k == 0:
            return np.zeros((n, 2), 'M8[s]')
        if k == 1:
            return np.arange(n).astype('m8[s]')
        if k == 2:
            return np.arange(n, dtype=str(r.choice(['f8', 'i8', 'u1'])))
        return np.arange(n).astype('M8[' + str(r.choice(['Y', 'M'])) + ']')

    def dates(r):
        fn = str(r.choice(['date', 'datetime', 'isocalendar', 'time',
                           'timedelta_since_january', 'weekday']))
        return getattr(C().dateutils, fn)(odd_dates(r))

    def tracks(r):
        """The coordinates of one track, or of both, have two sizes."""
        n = int(r.integers(1, 9))
        good = [vec(r, n), vec(r, n)]
        k = int(r.integers(0, 3))
        if k == 0:
            return mismatched(r, 2) + good
        if k == 1:
            return good + mismatched(r, 2)
        return mismatched(r, 2) + mismatched(r, 2)

    def plane(r):
        k = int(r.integers(0, 3))
        return {} if k == 0 else dict(cartesian_plane=k == 1)

    def odd_series(r):
        n = int(r.integers(4, 9))
        k = int(r.integers(0, 3))
        if k == 0:
            return np.zeros((n, 2))
        if k == 1:
            return np.array(['x'] * n)
        return np.zeros((n, 2, 2))

    def curve(r):
        n = int(r.integers(5, 9))
        kw = [dict(kind='none'), dict(half_window_size=0),
              dict(bounds_error=True)][int(r.integers(0, 3))]
        q = vec(r, 4).copy()
        if 'bounds_error' in kw:
            q[int(r.integers(0, 4))] = float(r.choice([-.5, n + .5, np.nan,
                                                       np.inf, -np.inf]))
        return P().interpolate1d(C().Axis(np.arange(float(n))), vec(r, n),
                                 q, **kw)

    return [
        ('dates', lambda o, r: dates(r)),
        ('fill.vector shape', lambda o, r: P().fill.vector(odd_series(r))),
        ('interpolate1d', lambda o, r: curve(r)),
        ('interpolate1d shape', lambda o, r: P().interpolate1d(
            C().Axis(np.arange(8.)), vec(r, 8), np.zeros((2, 3)))),
        ('fill.matrix shape', lambda o, r: P().fill.matrix(
            np.zeros((2, ) * int(r.choice([3, 4]))))),
        ('encode sizes', lambda o, r: H.encode(*mismatched(r, 2), 5)),
        ('encode precision', lambda o, r: H.encode(
            vec(r, 3), vec(r, 3), int(r.choice([0, 13, 99])))),
        ('int64 sizes', lambda o, r: H.int64.encode(*mismatched(r, 2), 40)),
        ('int64 precision', lambda o, r: H.int64.encode(
            vec(r, 3), vec(r, 3), int(r.choice([0, 65, 99])))),
        ('decode size', lambda o, r: H.decode(codes(r, 13))),
        ('decode type', lambda o, r: H.decode(np.zeros(3))),
        ('decode shape', lambda o, r: H.decode(
            codes(r, 3, 4).reshape(2, 2))),
        ('where shape', lambda o, r: H.where(codes(r, 3))),
        ('boxes precision', lambda o, r: H.bounding_boxes(
            None, int(r.choice([0, 13, 77])))),
        ('distances sizes', lambda o, r: G.coordinate_distances(
            *mismatched(r, 4), num_threads=int(r.integers(0, 3)))),
        ('distances strategy', lambda o, r: G.coordinate_distances(
            *[vec(r, 3)] * 4, strategy='none')),
        ('crossover sizes', lambda o, r: C().geodetic.calculate_crossover(
            *tracks(r), 1e7, **plane(r))),
        ('crossover list sizes',
         lambda o, r: C().geodetic.calculate_crossover_list(
             *tracks(r), 1e7, **plane(r))),
        ('swath sizes', lambda o, r: C().geodetic.calculate_swath(
            *mismatched(r, 2), 2000., 2000., 3)),
        ('dates type', lambda o, r: C().dateutils.date(vec(r, 5))),
        ('interpolate1d sizes', lambda o, r: P().interpolate1d(
            C().Axis(np.arange(8.)), vec(r, two(r)[0] + 9), vec(r, 4))),
        ('matrix shape', lambda o, r: C().fill.matrix_float64(
            np.zeros((2, 2, 2)))),
        ('gauss shape', lambda o, r: C().fill.gauss_seidel_float64(
            np.zeros((2, 2, 2)), C().fill.FirstGuess.ZonalAverage, False, 4,
            1e-4, 1.1, 1)),
    ]


TABLE = {
    'Axis': axis_calls, 'AxisInt64': axis_calls, 'TemporalAxis': axis_calls,
    'Grid': grid_calls, 'Backend': backend_calls, 'RTree': tree_calls,
    'geodetic.RTree': geotree_calls, 'Binning2D': binning_calls,
    'Binning1D': binning_calls, 'Histogram2D': binning_calls,
    'DescriptiveStatistics': stat_calls, 'StreamingHistogram': stat_calls,
    'Box': polygon_calls, 'Polygon': polygon_calls,
    'MultiPolygon': polygon_calls, 'LineString': line_calls,
    'Coordinates': coordinates_calls, 'PeriodList': period_list_calls,
    'functions': function_calls,
}


def calls(p):
    fn = TABLE.get(p['kind'])
    return fn(p) if fn else []
