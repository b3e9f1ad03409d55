"""Catalogue of the operations of the module that use several threads.

Every operation is described by a dictionary of small values (so that it can
be stored in a replay file and shrunk) from which `make` builds the objects:

    call(num_threads)   runs the operation, returns a tuple of results
    inputs              arrays and objects the operation must not modify
"""
import zlib

import numpy as np

import simrt

WORLD = {}


def _core():
    return simrt.core


def rng_of(seed):
    return np.random.default_rng(seed & 0xffffffff)


class Call:
    """An operation ready to run."""

    def __init__(self, call, inputs=(), points=None, snapshot=None,
                 results_own=True):
        self.call = call
        self.inputs = list(inputs)
        self.points = points  # list of per-element arrays, if point-wise
        self.snapshot = snapshot  # function giving the state of the objects


# ---------------------------------------------------------------------------
# Builders
def make_axis(p, n, lo, hi, circle):
    core = _core()
    r = rng_of(p)
    if circle:
        v = np.linspace(0, 360, n, endpoint=False)
        if r.random() < .3:
            v = v - 180
        k = r.random()
        if k < .2 and n > 2:
            # the origin is not the smallest angle
            # (the library takes the direction from the first two points)
            v = np.roll(v, int(r.integers(2, n)))
        elif k < .35 and n > 2:
            v = v + r.uniform(0, 100. / n, n)
        elif r.random() < .25:
            v = v[::-1].copy()
        return core.Axis(v, is_circle=True)
    if r.random() < .6:
        v = np.linspace(lo, hi, n)
    else:
        v = np.sort(r.uniform(lo, hi, n))
        v += np.arange(n) * 1e-3
    if r.random() < .25:
        v = v[::-1].copy()
    return core.Axis(v)


def grid_values(r, shape, dtype, nan):
    if dtype in ('int8', 'uint8'):
        return r.integers(0, 100, shape).astype(dtype)
    v = r.normal(size=shape)
    if nan:
        v[r.random(shape) < nan] = np.nan
    return v.astype(dtype)


NAMES = {'float32': 'Float32', 'float64': 'Float64', 'int8': 'Int8',
         'uint8': 'UInt8'}


def make_grid(p):
    """p: seed, dim, temporal, dtype, n (list), circle, nan"""
    core = _core()
    r = rng_of(p['seed'])
    n = p['n']
    x = make_axis(p['seed'] + 1, n[0], -30, 30, p['circle'])
    y = make_axis(p['seed'] + 2, n[1], -40, 40, False)
    axes = [x, y]
    if p['dim'] >= 3:
        if p.get('temporal'):
            step = int(r.integers(1, 50))
            z = core.TemporalAxis(
                (np.arange(n[2]) * step).astype('datetime64[ns]'))
        else:
            z = make_axis(p['seed'] + 3, n[2], 0, 10, False)
        axes.append(z)
    if p['dim'] >= 4:
        axes.append(make_axis(p['seed'] + 4, n[3], -5, 5, False))
    values = grid_values(r, tuple(n[:p['dim']]), p['dtype'], p['nan'])
    if p.get('fortran'):
        values = np.asfortranarray(values)
    name = ('Temporal' if p.get('temporal') else '') + \
        f'Grid{p["dim"]}D{NAMES[p["dtype"]]}'
    return getattr(core, name)(*axes, values), axes, values


class Name(str):
    """The name of a dimension.  Its hash, which the interpreter draws for
    each process, is drawn from the seed of the process simulated."""
    process = 0

    def __hash__(self):
        return zlib.crc32(f'{Name.process}{str(self)}'.encode())


def data_array(axes, values, dims, names, units):
    """The labelled array whose dimensions are `dims` (positions in `names`),
    the coordinates being given in the order of `axes`."""
    import xarray
    coords = {
        names[k]: xarray.DataArray(v, dims=(names[k], ),
                                   attrs=dict(units=units[k])
                                   if units[k] else {})
        for k, v in axes
    }
    return xarray.DataArray(np.transpose(values, dims), coords=coords,
                            dims=tuple(names[k] for k in dims))


def make_points(p, axes, size, out):
    """Coordinates inside the axes, a share `out` of them outside."""
    r = rng_of(p + 99)
    result = []
    for i, a in enumerate(axes):
        lo, hi = a.min_value(), a.max_value()
        if isinstance(lo, np.ndarray) or isinstance(lo, np.datetime64):
            lo = int(np.asarray(lo).astype('int64'))
            hi = int(np.asarray(hi).astype('int64'))
            v = r.integers(lo, max(hi, lo + 1), size)
            if out and i != 0:
                bad = r.random(size) < out / 2
                v[bad] = hi + 1 + r.integers(0, 100, bad.sum())
            result.append(v.astype('int64'))
            continue
        circle = getattr(a, 'is_circle', False)
        if circle:
            v = r.uniform(-360, 720, size)
        else:
            v = r.uniform(lo, hi, size)
            on = r.random(size) < .2
            if on.any():
                v[on] = [a[int(k)] for k in r.integers(0, len(a), on.sum())]
            if out:
                bad = r.random(size) < out / 2
                v[bad] = hi + r.uniform(1, 50, bad.sum())
                bad = r.random(size) < out / 4
                v[bad] = np.nan
        result.append(v)
    return result


def gen_sizes(r):
    """Number of elements: small ones, multiples, ends."""
    k = r.integers(0, 10)
    if k < 5:
        return int(r.integers(0, 18))
    if k < 9:
        return int(r.integers(8, 48))
    return int(r.integers(48, 140))


def gen_grid(r, dims, temporal=None, ints=False):
    dim = int(r.choice(dims))
    t = bool(r.integers(0, 2)) if temporal is None else temporal
    if dim == 2:
        t = False
    dtype = str(r.choice(['float64', 'float64', 'float32']))
    if ints and dim == 2 and r.random() < .2:
        dtype = str(r.choice(['int8', 'uint8']))
    n = [int(r.integers(6, 14)), int(r.integers(6, 14)),
         int(r.integers(2, 6)), int(r.integers(2, 5))]
    return dict(seed=int(r.integers(1 << 30)), dim=dim, temporal=t,
                dtype=dtype, n=n, circle=bool(r.random() < .5),
                nan=float(r.choice([0, 0, .1, .5])),
                fortran=bool(r.random() < .2))


class Op:
    name = ''

    def gen(self, r, error=False):
        raise NotImplementedError

    def make(self, p):
        raise NotImplementedError

    def shrink(self, p):
        """Candidates that are simpler than p."""
        if 'size' in p:
            for s in (p['size'] // 2, p['size'] - 1):
                if 0 <= s < p['size']:
                    yield dict(p, size=s)
        g = p.get('grid')
        if g:
            for i in range(g['dim']):
                if g['n'][i] > 6:
                    n = list(g['n'])
                    n[i] = 6
                    yield dict(p, grid=dict(g, n=n))
            if g['nan']:
                yield dict(p, grid=dict(g, nan=0))
            if g['circle']:
                yield dict(p, grid=dict(g, circle=False))
        if p.get('out'):
            yield dict(p, out=0)


REGISTRY = {}


def register(cls):
    op = cls()
    REGISTRY[op.name] = op
    return cls


def suffix(p):
    return p['grid']['dtype'].lower()


@register
class Interp(Op):
    """bivariate, trivariate, quadrivariate"""
    name = 'interp'

    def gen(self, r, error=False):
        g = gen_grid(r, [2, 2, 3, 3, 4], ints=True)
        if g['dim'] == 2:
            kinds = ['Bilinear', 'Nearest', 'InverseDistanceWeighting']
        else:
            kinds = ['Bilinear', 'Nearest', 'InverseDistanceWeighting']
        return dict(grid=g, size=gen_sizes(r), kind=str(r.choice(kinds)),
                    out=float(r.choice([0, .2, .6])),
                    zm=str(r.choice(['', 'linear', 'nearest'])),
                    um=str(r.choice(['', 'linear', 'nearest'])),
                    bounds=bool(error or r.random() < .15))

    def make(self, p):
        core = _core()
        g = p['grid']
        grid, axes, values = make_grid(g)
        pts = make_points(g['seed'], axes, p['size'], p['out'])
        d = g['dim']
        name = ('Temporal' if g['temporal'] else '') + p['kind'] + \
            ('2D' if d == 2 else '3D')
        interp = getattr(core, name)()
        kw = {}
        if d >= 3 and p['zm']:
            kw['z_method'] = p['zm']
        if d >= 4 and p['um']:
            kw['u_method'] = p['um']
        fn = getattr(core, {2: 'bivariate_', 3: 'trivariate_',
                            4: 'quadrivariate_'}[d] + suffix(p))

        def call(n, pts=pts):
            return (fn(grid, *pts, interp, bounds_error=p['bounds'],
                    num_threads=n, **kw), )

        return Call(call, pts + [values], points=pts)


FITS2 = ['linear', 'bicubic', 'polynomial', 'c_spline', 'c_spline_periodic',
         'akima', 'akima_periodic', 'steffen']


@register
class Spline(Op):
    """bicubic and spline windowed interpolation"""
    name = 'spline'

    def gen(self, r, error=False):
        g = gen_grid(r, [2, 2, 3, 4])
        g['n'] = [int(r.integers(8, 14)), int(r.integers(8, 14))] + g['n'][2:]
        fn = str(r.choice(['bicubic', 'spline']))
        if fn == 'bicubic':
            fit = str(r.choice(['bilinear', 'bicubic']))
        else:
            fit = str(r.choice(['c_spline', 'c_spline_periodic', 'akima',
                                'akima_periodic', 'steffen', 'linear',
                                'polynomial']))
        if error and r.random() < .15:
            fit = 'unknown'
        return dict(grid=g, size=min(gen_sizes(r), 24), fn=fn, fit=fit,
                    nx=int(r.integers(2, 5)), ny=int(r.integers(2, 5)),
                    boundary=str(r.choice(['undef', 'undef', 'expand', 'sym',
                                           'wrap'])),
                    out=float(r.choice([0, .2])),
                    bounds=bool(error or r.random() < .15))

    def make(self, p):
        core = _core()
        g = p['grid']
        grid, axes, values = make_grid(g)
        pts = make_points(g['seed'], axes, p['size'], p['out'])
        fn = getattr(core, p['fn'] + '_' + suffix(p))

        def call(n, pts=pts):
            return (fn(grid, *pts, nx=p['nx'], ny=p['ny'],
                       fitting_model=p['fit'], boundary=p['boundary'],
                       bounds_error=p['bounds'], num_threads=n), )

        return Call(call, pts + [values], points=pts)


def lonlat(seed, n, spread):
    r = rng_of(seed)
    lon = r.uniform(-spread, spread, n)
    lat = r.uniform(-spread / 2, spread / 2, n)
    return lon, lat


@register
class Tree(Op):
    """RTree3D: query, value, interpolations"""
    name = 'rtree'
    METHODS = ['query', 'value', 'inverse_distance_weighting',
               'radial_basis_function', 'window_function',
               'universal_kriging']

    def gen(self, r, error=False):
        return dict(seed=int(r.integers(1 << 30)), size=min(gen_sizes(r), 40),
                    n=int(r.choice([0, 1, 3, 12, 40, 90])),
                    dtype=str(r.choice(['Float64', 'Float64', 'Float32'])),
                    ecef=bool(r.random() < .25), cols=int(r.choice([2, 3])),
                    method=str(r.choice(self.METHODS)),
                    k=int(r.choice([1, 2, 4, 9, 13])),
                    within=bool(r.random() < .4),
                    radius=float(r.choice([0, 0, 3e5, 2e6])),
                    rbf=int(r.integers(0, 7)), wf=int(r.integers(0, 10)),
                    cov=int(r.integers(0, 9)), pack=bool(r.random() < .7),
                    smooth=float(r.choice([0, 0, 1.])),
                    p=int(r.integers(0, 4)))

    def make(self, p):
        core = _core()
        r = rng_of(p['seed'])
        tree = getattr(core, 'RTree3D' + p['dtype'])(None, p['ecef'])
        lon, lat = lonlat(p['seed'] + 1, p['n'], 20)
        alt = r.uniform(0, 1000, p['n'])
        val = r.normal(size=p['n'])
        dt = 'f8' if p['dtype'] == 'Float64' else 'f4'
        scale = 1e5 if p['ecef'] else 1
        crd = np.column_stack([lon * scale, lat * scale] +
                              ([alt] if p['cols'] == 3 else [])).astype('f8')
        if p['n']:
            (tree.packing if p['pack'] else tree.insert)(crd, val.astype(dt))
        qlon, qlat = lonlat(p['seed'] + 2, p['size'], 25)
        q = np.column_stack([qlon * scale, qlat * scale] +
                            ([r.uniform(0, 1000, p['size'])]
                             if p['cols'] == 3 else [])).astype('f8')
        m = p['method']
        kw = dict(k=p['k'], within=p['within'])
        if m != 'query':
            kw['radius'] = p['radius'] or None
        if m == 'radial_basis_function':
            kw['rbf'] = core.RadialBasisFunction(p['rbf'] % len(
                core.RadialBasisFunction.__members__))
            kw['smooth'] = p['smooth']
        elif m == 'window_function':
            kw['wf'] = list(core.WindowFunction.__members__.values())[
                p['wf'] % len(core.WindowFunction.__members__)]
        elif m == 'universal_kriging':
            kw['covariance'] = list(
                core.CovarianceFunction.__members__.values())[
                    p['cov'] % len(core.CovarianceFunction.__members__)]
        elif m == 'inverse_distance_weighting':
            kw['p'] = p['p']
        fn = getattr(tree, m)

        def call(n, pts=(q, )):
            return fn(pts[0], num_threads=n, **kw)

        def snap():
            return tree.__getstate__()

        return Call(call, [q], points=[q],
                    snapshot=None if p['ecef'] else snap)

    def shrink(self, p):
        yield from super().shrink(p)
        for n in (p['n'] // 2, p['n'] - 1):
            if 0 <= n < p['n']:
                yield dict(p, n=n)


@register
class GeoTree(Op):
    """geodetic.RTree"""
    name = 'geortree'
    METHODS = ['query', 'inverse_distance_weighting', 'radial_basis_function',
               'window_function']

    def gen(self, r, error=False):
        return dict(seed=int(r.integers(1 << 30)), size=min(gen_sizes(r), 24),
                    n=int(r.choice([0, 1, 3, 12, 40])),
                    method=str(r.choice(self.METHODS)),
                    k=int(r.choice([1, 2, 4, 9])),
                    within=bool(r.random() < .4),
                    radius=float(r.choice([0, 0, 3e5, 2e6])),
                    rbf=int(r.integers(0, 7)), wf=int(r.integers(0, 10)),
                    pack=bool(r.random() < .7), wgs=bool(r.random() < .5))

    def make(self, p):
        core = _core()
        r = rng_of(p['seed'])
        tree = core.geodetic.RTree(
            core.geodetic.Spheroid() if p['wgs'] else None)
        lon, lat = lonlat(p['seed'] + 1, p['n'], 20)
        val = r.normal(size=p['n'])
        if p['n']:
            (tree.packing if p['pack'] else tree.insert)(lon, lat, val)
        qlon, qlat = lonlat(p['seed'] + 2, p['size'], 25)
        m = p['method']
        kw = dict(k=p['k'], within=p['within'])
        if m != 'query':
            kw['radius'] = p['radius'] or None
        if m == 'radial_basis_function':
            kw['rbf'] = list(core.RadialBasisFunction.__members__.values())[
                p['rbf'] % len(core.RadialBasisFunction.__members__)]
        elif m == 'window_function':
            kw['wf'] = list(core.WindowFunction.__members__.values())[
                p['wf'] % len(core.WindowFunction.__members__)]
            if kw['radius'] is None:
                kw['radius'] = 1e6
        fn = getattr(tree, m)

        def call(n, pts=(qlon, qlat)):
            return fn(*pts, num_threads=n, **kw)

        return Call(call, [qlon, qlat], points=[qlon, qlat],
                    snapshot=tree.__getstate__)

    shrink = Tree.shrink


@register
class Coordinates(Op):
    """geodetic.Coordinates: lla <-> ecef, transform"""
    name = 'coordinates'

    def gen(self, r, error=False):
        return dict(seed=int(r.integers(1 << 30)), size=gen_sizes(r),
                    method=int(r.integers(0, 3)))

    def make(self, p):
        core = _core()
        c = core.geodetic.Coordinates(None)
        o = core.geodetic.Coordinates(
            core.geodetic.Spheroid(6378000., 1 / 299.))
        lon, lat = lonlat(p['seed'], p['size'], 170)
        alt = rng_of(p['seed']).uniform(-100, 9000, p['size'])
        args = [lon, lat, alt]
        if p['method'] == 0:
            return Call(lambda n, pts=args: c.lla_to_ecef(
                *pts, num_threads=n), args, args)
        if p['method'] == 1:
            args = [lon * 3e4, lat * 3e4, alt * 600]
            return Call(lambda n, pts=args: c.ecef_to_lla(
                *pts, num_threads=n), args, args)
        return Call(lambda n, pts=args: c.transform(
            o, *pts, num_threads=n), args, args)


@register
class Loess(Op):
    name = 'loess'

    def gen(self, r, error=False):
        g = gen_grid(r, [2, 2, 3, 4])
        g['nan'] = float(r.choice([.1, .4, .9]))
        return dict(grid=g, nx=int(r.integers(1, 4)), ny=int(r.integers(1, 4)),
                    vt=int(r.integers(0, 3)))

    def make(self, p):
        core = _core()
        grid, axes, values = make_grid(p['grid'])
        fn = getattr(core.fill, 'loess_' + suffix(p))
        vt = list(core.fill.ValueType.__members__.values())[p['vt']]

        def call(n):
            return (fn(grid, p['nx'], p['ny'], vt, n), )

        return Call(call, [values])


@register
class GaussSeidel(Op):
    name = 'gauss_seidel'

    def gen(self, r, error=False):
        return dict(seed=int(r.integers(1 << 30)),
                    nx=int(r.integers(2, 14)), ny=int(r.integers(2, 20)),
                    dtype=str(r.choice(['float64', 'float32'])),
                    circle=bool(r.random() < .5),
                    guess=int(r.integers(0, 2)),
                    iters=int(r.choice([1, 2, 5, 12])),
                    relax=float(r.choice([1, .7, 1.5])),
                    nan=float(r.choice([.05, .4, .9])),
                    order=str(r.choice(['C', 'F', 'S'])))

    def make(self, p):
        core = _core()
        r = rng_of(p['seed'])
        v = grid_values(r, (p['nx'], p['ny']), p['dtype'], p['nan'])
        fn = getattr(core.fill, 'gauss_seidel_' + p['dtype'])
        fg = list(core.fill.FirstGuess.__members__.values())[p['guess']]

        def call(n):
            if p['order'] == 'S':
                big = np.full((p['nx'] * 2, p['ny'] * 2), 7, p['dtype'])
                w = big[::2, ::2]
                w[...] = v
            else:
                w = np.array(v, order=p['order'])
                big = w
            it, res = fn(w, fg, p['circle'], p['iters'], 1e-4, p['relax'], n)
            return np.array(w), np.array(big), np.array([it, res])

        return Call(call, [v])

    def shrink(self, p):
        for k in ('nx', 'ny'):
            if p[k] > 2:
                yield dict(p, **{k: p[k] - 1})
        if p['iters'] > 1:
            yield dict(p, iters=1)
        if p['order'] != 'C':
            yield dict(p, order='C')


def make_polygon(seed, holes):
    core = _core()
    r = rng_of(seed)
    n = int(r.integers(3, 9))
    cx, cy = r.uniform(-20, 20, 2)
    ang = np.sort(r.uniform(0, 2 * np.pi, n))
    rad = r.uniform(6, 12, n)
    P = core.geodetic.Point
    outer = [P(cx + a * np.cos(t), cy + a * np.sin(t))
             for a, t in zip(rad, ang)]
    outer.append(outer[0])
    inner = None
    if holes:
        inner = [[P(cx + 2 * np.cos(t), cy + 2 * np.sin(t))
                  for t in (0, 2, 4)]]
        inner[0].append(inner[0][0])
    poly = core.geodetic.Polygon(outer, inner)
    return poly.correct() or poly, (cx, cy)


@register
class CoveredBy(Op):
    name = 'covered_by'

    def gen(self, r, error=False):
        return dict(seed=int(r.integers(1 << 30)), size=min(gen_sizes(r), 60),
                    shape=str(r.choice(['box', 'polygon', 'multi'])),
                    holes=bool(r.integers(0, 2)))

    def make(self, p):
        core = _core()
        geo = core.geodetic
        poly, (cx, cy) = make_polygon(p['seed'], p['holes'])
        if p['shape'] == 'box':
            obj = poly.envelope()
        elif p['shape'] == 'polygon':
            obj = poly
        else:
            other, _ = make_polygon(p['seed'] + 7, False)
            obj = geo.MultiPolygon([poly, other])
        r = rng_of(p['seed'] + 3)
        lon = cx + r.uniform(-14, 14, p['size'])
        lat = cy + r.uniform(-14, 14, p['size'])
        args = [lon, lat]
        return Call(lambda n, pts=args: (obj.covered_by(
            *pts, num_threads=n), ), args, args, snapshot=lambda: obj.wkt())


@register
class Distances(Op):
    name = 'distances'

    def gen(self, r, error=False):
        return dict(seed=int(r.integers(1 << 30)), size=gen_sizes(r),
                    strategy=str(r.choice(['thomas', 'andoyer', 'vincenty'])),
                    wgs=bool(r.integers(0, 2)))

    def make(self, p):
        core = _core()
        a = lonlat(p['seed'], p['size'], 170)
        b = lonlat(p['seed'] + 1, p['size'], 170)
        wgs = core.geodetic.Spheroid() if p['wgs'] else None
        return Call(
            lambda n, pts=(*a, *b): (core.geodetic.coordinate_distances(
                *pts, strategy=p['strategy'], wgs=wgs, num_threads=n), ),
            [*a, *b], [*a, *b])


@register
class ClosestPoint(Op):
    name = 'closest_point'

    def gen(self, r, error=False):
        return dict(seed=int(r.integers(1 << 30)), size=min(gen_sizes(r), 30),
                    n=int(r.integers(2, 9)), wgs=bool(r.integers(0, 2)))

    def make(self, p):
        core = _core()
        ls = core.geodetic.LineString(*lonlat(p['seed'], p['n'], 60))
        lon, lat = lonlat(p['seed'] + 1, p['size'], 60)
        wgs = core.geodetic.Spheroid() if p['wgs'] else None

        def call(n, pts=(lon, lat)):
            return tuple(ls.closest_point(*pts, wgs=wgs, num_threads=n))

        return Call(call, [lon, lat], [lon, lat], snapshot=lambda: ls.wkt())


@register
class Geohash(Op):
    name = 'geohash_boxes'

    def gen(self, r, error=False):
        return dict(seed=int(r.integers(1 << 30)),
                    precision=int(r.choice([1, 2, 3])),
                    multi=bool(r.integers(0, 2)), holes=False)

    def make(self, p):
        core = _core()
        poly, _ = make_polygon(p['seed'], p['holes'])
        if p['multi']:
            poly = core.geodetic.MultiPolygon(
                [poly, make_polygon(p['seed'] + 5, False)[0]])
        return Call(
            lambda n: (core.geohash.bounding_boxes(
                poly, precision=p['precision'], num_threads=n), ), [],
            snapshot=lambda: poly.wkt())


NAMES_ALL = list(REGISTRY)


def generate(r, names=None, error=False):
    names = names or NAMES_ALL
    weights = np.array([{'interp': 3, 'spline': 2, 'rtree': 3}.get(n, 1)
                        for n in names], float)
    name = str(r.choice(names, p=weights / weights.sum()))
    p = REGISTRY[name].gen(r, error)
    p['op'] = name
    return p


def make(p):
    return REGISTRY[p['op']].make(p)


def shrink(p):
    return REGISTRY[p['op']].shrink(p)


# ---------------------------------------------------------------------------
def canonical(v):
    """Bytes that identify a result (every NaN is the same)."""
    if isinstance(v, (tuple, list)):
        return b'(' + b','.join(canonical(x) for x in v) + b')'
    if isinstance(v, np.ndarray):
        w = np.ascontiguousarray(v)
        if w.dtype.kind == 'f':
            w = w.copy()
            w[np.isnan(w)] = np.nan
        return f'{w.dtype}{w.shape}'.encode() + w.tobytes()
    if isinstance(v, float) and v != v:
        return b'nan'
    return repr(v).encode()


def describe(v, limit=6):
    if isinstance(v, (tuple, list)):
        return [describe(x, limit) for x in v]
    if isinstance(v, np.ndarray):
        return f'{v.dtype}{v.shape}'
    return repr(v)[:80]
