"""P18: each element of a batch is answered as if it were alone."""
import numpy as np

import ops
import simrt
from harness import Prop, attempt, rng, sched

from .parallel import THREADS, parallel, reference, report_races, shrink_op

FLOATS = [float('nan')] * 6 + [
    float('inf'), -float('inf'), 0., -0., 1e308, -1e308,
    1e-310, 1e19, 361., -1e6, 180., -180., 90., -90.]
INTS = [-(1 << 63), (1 << 63) - 1, 0, -1, 1 << 62, 1 << 40]


# ---------------------------------------------------------------------------
# Batches of calls that do not use threads
def dates(r, n):
    unit = str(r.choice(['D', 'h', 'm', 's', 'ms', 'us', 'ns']))
    lo, hi = (np.array(x, f'M8[{unit}]').astype('i8')
              for x in ('1690-01-01', '2240-01-01'))
    v = r.integers(lo, hi, n)
    on = r.random(n) < .3
    v[on] = (v[on].astype(f'M8[{unit}]').astype('M8[Y]')
             .astype(f'M8[{unit}]').astype('i8'))
    return v.astype(f'M8[{unit}]')


def batch_axis(r, n):
    core = simrt.core
    a = ops.make_axis(int(r.integers(1 << 30)), int(r.integers(2, 14)), -30,
                      30, bool(r.integers(0, 2)))
    x = r.uniform(-400, 400, n)
    on = r.random(n) < .4
    x[on] = [a[int(k)] for k in r.integers(0, len(a), on.sum())]
    if r.random() < .5:
        bounded = bool(r.integers(0, 2))
        return [x], lambda p: (a.find_index(p[0], bounded), )
    return [x], lambda p: (a.find_indexes(p[0]), )


def batch_temporal(r, n):
    core = simrt.core
    m = int(r.integers(2, 10))
    if r.random() < .6:
        v = int(r.choice([0, 0, 5, -7])) + \
            np.arange(m) * int(r.choice([1, -1, 2, 7, -3]))
    else:
        v = np.cumsum(r.integers(1, 9, m)) * int(r.choice([1, -1]))
    a = core.TemporalAxis(v.astype('M8[s]'))
    x = r.integers(v.min() - 5, v.max() + 6, n).astype('M8[s]')
    if r.random() < .5:
        bounded = bool(r.integers(0, 2))
        return [x], lambda p: (a.find_index(p[0], bounded), )
    return [x], lambda p: (a.find_indexes(p[0]), )


def batch_dateutils(r, n):
    u = simrt.core.dateutils
    fn = getattr(u, str(r.choice(['date', 'time', 'isocalendar', 'weekday',
                                  'timedelta_since_january', 'datetime'])))
    return [dates(r, n)], lambda p: (fn(p[0]), )


def batch_geohash(r, n):
    g = simrt.core.geohash
    k = int(r.integers(0, 5))
    lon, lat = r.uniform(-180, 180, n), r.uniform(-90, 90, n)
    prec = int(r.integers(1, 13))
    if k == 0:
        return [lon, lat], lambda p: (g.encode(*p, precision=prec), )
    if k == 1:
        bits = int(r.integers(1, 65))
        return [lon, lat], lambda p: (g.int64.encode(*p, precision=bits), )
    rnd = bool(r.integers(0, 2))
    if k == 2:
        bits = int(r.integers(1, 65))
        v = r.integers(0, 1 << 63, n, dtype='u8')
        return [v], lambda p: g.int64.decode(p[0], precision=bits, round=rnd)
    v = g.encode(lon, lat, precision=prec)
    if k == 3:
        return [v], lambda p: g.decode(p[0], round=rnd)
    return [v], lambda p: (g.area(p[0]), )


def batch_interpolate1d(r, n):
    core = simrt.core
    a = ops.make_axis(int(r.integers(1 << 30)), int(r.integers(8, 20)), -30,
                      30, bool(r.random() < .3))
    y = r.normal(size=len(a))
    if r.random() < .3:
        y[r.random(len(a)) < .2] = np.nan
    kw = dict(half_window_size=int(r.integers(2, 6)),
              bounds_error=bool(r.random() < .2),
              kind=str(r.choice(['linear', 'c_spline', 'c_spline_periodic',
                                 'akima', 'akima_periodic', 'steffen',
                                 'polynomial'])))
    x = r.uniform(-30, 31, n)
    return [x], lambda p: (core.interpolate1d(a, y, p[0], **kw), )


def batch_periods(r, n):
    core = simrt.core
    m = int(r.integers(0, 6))
    v = np.sort(r.choice(60, 2 * m, replace=False)).reshape(-1, 2)
    p = np.zeros(m, [('begin', 'i8'), ('last', 'i8')])
    p['begin'], p['last'] = v.T
    pl = core.PeriodList(p)
    x = np.sort(r.integers(-3, 64, n))
    return [x], lambda p: (pl.belong_to_a_period(p[0]), )


def columns(r, n, *extra):
    """Several series: the element is the series."""
    v = r.normal(size=(n, int(r.integers(1, 12))))
    w = r.uniform(.1, 2, v.shape) if r.random() < .4 else None
    return v, w, str(r.choice(['Float64', 'Float32']))


def batch_statistics(r, n):
    v, w, t = columns(r, n)
    cls = getattr(simrt.core, 'DescriptiveStatistics' + t)
    dt = 'f8' if t == 'Float64' else 'f4'
    names = ['count', 'min', 'max', 'mean', 'variance', 'skewness', 'kurtosis',
             'sum', 'sum_of_weights']

    def call(p):
        o = cls(p[0].astype(dt), p[1].astype(dt) if len(p) > 1 else None, [1])
        return tuple(getattr(o, k)() for k in names)

    return [v] + ([w] if w is not None else []), call


def batch_histograms(r, n):
    v, w, t = columns(r, n)
    cls = getattr(simrt.core, 'StreamingHistogram' + t)
    dt = 'f8' if t == 'Float64' else 'f4'
    bins = int(r.choice([1, 2, 3, 5, 40]))
    names = ['count', 'min', 'max', 'mean', 'variance', 'sum_of_weights',
             'size']

    def call(p):
        o = cls(p[0].astype(dt), p[1].astype(dt) if len(p) > 1 else None, [1],
                bins)
        return tuple(getattr(o, k)() for k in names) + (o.quantile(.3), )

    return [v] + ([w] if w is not None else []), call


def batch_normalize(r, n):
    fn = simrt.core.geodetic.normalize_longitudes
    lo = float(r.choice([-180, 0, -30]))

    def call(p):
        x = np.array(p[0], 'f8')
        fn(x, lo)
        return (x, )

    return [r.uniform(-720, 720, n)], call


BATCHES = dict(axis=batch_axis, temporal=batch_temporal,
               dateutils=batch_dateutils, geohash=batch_geohash,
               interpolate1d=batch_interpolate1d, periods=batch_periods,
               statistics=batch_statistics, histograms=batch_histograms,
               normalize_longitudes=batch_normalize)
POINTWISE = ['interp', 'spline', 'rtree', 'geortree', 'coordinates',
             'covered_by', 'distances', 'closest_point']
ORDERED = ('periods', )


# ---------------------------------------------------------------------------
def corrupt(v, i, seed, other):
    """Changes the element i of the array v."""
    r = rng('corrupt', seed)
    k = int(r.integers(0, 5))
    if k == 0 and len(v) > 1:
        v[i] = v[other % len(v)]
        return 'repeated element'
    if v.dtype.kind == 'S':
        b = bytearray(bytes(v[i]).ljust(v.dtype.itemsize, b'0'))
        if b:
            b[int(r.integers(0, len(b)))] = int(r.choice(
                [0, 32, 97, 105, 65, 255, 128, 48, 122]))
        v[i] = bytes(b)
        return 'damaged code'
    flat = v.reshape(len(v), -1) if v.ndim > 1 else v[:, None]
    j = int(r.integers(0, flat.shape[1])) if flat.shape[1] else 0
    if not flat.shape[1]:
        return 'nothing'
    if k == 1:
        w = np.array([flat[i, j]])
        b = w.view('u1')
        b[int(r.integers(0, len(b)))] ^= 1 << int(r.integers(0, 8))
        flat[i, j] = w[0]
        return 'flipped bit'
    if v.dtype.kind == 'f':
        x = FLOATS[int(r.integers(0, len(FLOATS)))]
        flat[i, j] = x
        return 'undefined value' if x != x else 'extreme value'
    x = np.array([INTS[int(r.integers(0, len(INTS)))]], 'i8')
    flat[i, j] = x.view(v.dtype)[0] if v.dtype.itemsize == 8 else x[0] & 127
    return 'extreme value'


LAYOUTS = ['C', 'C', 'C', 'step', 'reversed', 'F', 'readonly', 'swapped',
           'offset']


def layout(v, how):
    """The same values in memory laid out in another way."""
    if how == 'step':
        big = np.zeros((2 * len(v), ) + v.shape[1:], v.dtype)
        big[::2] = v
        return big[::2]
    if how == 'reversed':
        return v[::-1].copy()[::-1]
    if how == 'F':
        return np.asfortranarray(v)
    if how == 'readonly':
        v = v.copy()
        v.flags.writeable = False
        return v
    if how == 'swapped' and v.dtype.kind in 'fiumM':
        return v.astype(v.dtype.newbyteorder())
    if how == 'offset' and v.dtype.kind in 'fiumM':
        b = np.zeros(v.nbytes + 1, 'u1')
        w = b[1:].view(v.dtype).reshape(v.shape)
        w[...] = v
        return w
    return v.copy()


def element(res, i):
    return tuple(np.asarray(a)[i:i + 1] for a in res)


def key(v):
    if isinstance(v, np.ndarray) and v.dtype.names:
        return b''.join(key(np.ascontiguousarray(v[n]))
                        for n in v.dtype.names)
    if isinstance(v, np.ndarray) and v.dtype.kind == 'O':
        return repr(v.tolist()).encode()
    return ops.canonical(v)


class P18(Prop):
    id = 'P18'

    def generate(self, r, index):
        if r.random() < .55:
            op = ops.generate(r, POINTWISE)
            op['size'] = min(op['size'], 24)
        else:
            op = dict(op='batch', batch=str(r.choice(
                list(BATCHES) + ['geohash'] * 3)),
                      seed=int(r.integers(1 << 30)),
                      size=int(r.integers(0, 20)))
        hits = []
        if r.random() < .8:
            for _ in range(int(r.choice([1, 1, 2, 4]))):
                hits.append([int(x) for x in r.integers(0, 1 << 30, 4)])
        # elements that follow an equal one
        same = []
        if r.random() < .5:
            for _ in range(int(r.choice([1, 2, 5]))):
                # undefined then, in one of the arrays
                same.append([int(r.integers(0, 1 << 30)),
                             int(r.choice([-1, -1, 0, 1]))])
            for h in hits:
                if r.random() < .5:
                    h[1] = same[int(r.integers(len(same)))][0]
        return dict(op=op, hits=hits, same=same, sched=sched(r),
                    threads=int(r.choice(THREADS)),
                    layout=[str(x) for x in r.choice(LAYOUTS, 4)],
                    fill=int(r.choice([0x5B, 0, 0xFF, 0x7F])))

    def shrink(self, sc):
        for i in range(len(sc['hits'])):
            yield dict(sc, hits=sc['hits'][:i] + sc['hits'][i + 1:])
        for i in range(len(sc['same'])):
            yield dict(sc, same=sc['same'][:i] + sc['same'][i + 1:])
        for i, v in enumerate(sc['layout']):
            if v != 'C':
                yield dict(sc, layout=sc['layout'][:i] + ['C'] +
                           sc['layout'][i + 1:])
        if sc['op']['op'] == 'batch':
            if sc['op']['size']:
                yield dict(sc, op=dict(sc['op'], size=sc['op']['size'] - 1))
        else:
            yield from shrink_op(sc)

    def execute(self, sc, out):
        spec = sc['op']
        if spec['op'] == 'batch':
            name = spec['batch']
            pts, fn = BATCHES[name](rng('batch', spec['seed']), spec['size'])

            def call(n, pts):
                return fn(pts)
        else:
            name = spec['op']
            c = ops.make(spec)
            pts, call = c.points, c.call
        out.tag('op:' + name)
        pts = [np.array(p) for p in pts]
        size = len(pts[0])
        for i, lost in sc['same']:
            if size > 1:
                i = i % size or 1
                for p in pts:
                    p[i] = p[i - 1]
                out.tag('fault:element repeated')
                p = pts[lost % len(pts)]
                if lost >= 0 and p.dtype.kind == 'f':
                    p[i] = np.nan
                    out.tag('fault:undefined value')
        for k, i, seed, other in sc['hits']:
            if size:
                out.tag('fault:' + corrupt(pts[k % len(pts)], i % size, seed,
                                           other))
        if name in ORDERED:
            pts = [np.sort(p) for p in pts]
        given = [layout(p, h) for p, h in zip(pts, sc['layout'])]
        if sc['layout'][0] != 'C':
            out.tag('layout:' + sc['layout'][0])
        a = parallel(sc, lambda n: call(n, given), sc['threads'], races=True)
        report_races(out, name)
        if a[0] == 'ok':
            for x in a[1]:
                out.note(key(np.asarray(x)))
        else:
            out.note(a[1:])
        out.nontrivial = bool(sc['hits']) or simrt.shared.preemptions > 0
        if not size:
            return
        alone = [reference(lambda n: call(n, [p[i:i + 1].copy()
                                              for p in pts]))
                 for i in range(size)]
        errors = {b[1:] for b in alone if b[0] == 'err'}
        if any(b[0] == 'err' and (b[1] == 'SystemError' or
                                  'nknown exception' in b[2]) for b in alone):
            out.fail('error', f'{name}: {sorted(errors)[:2]}')
        if a[0] == 'err':
            out.tag('refused')
            if sc['layout'][:len(pts)] != ['C'] * len(pts):
                # this layout may be refused, not answered wrongly
                whole = reference(lambda n: call(n, [p.copy() for p in pts]))
                if whole != a and a[1] in ('TypeError', 'ValueError',
                                           'RuntimeError'):
                    out.tag('layout refused')
                    return
            if a[1:] not in errors:
                out.fail('error', f'{name}: {a[1:]} is not an error of an '
                         f'element ({sorted(errors)[:2]})')
            return
        if errors:
            i = [b[0] for b in alone].index('err')
            out.fail('error-lost', f'{name}: element {i} alone fails with '
                     f'{alone[i][1:]}, the batch is answered')
            return
        for i, b in enumerate(alone):
            one = element(a[1], i)
            for j, (x, y) in enumerate(zip(one, b[1])):
                if key(x) != key(np.asarray(y)):
                    out.fail('element', f'{name}: element {i} of {size}: '
                             f'{x.tolist()!r:.90} in the batch, '
                             f'{np.asarray(y).tolist()!r:.90} alone '
                             f'(result {j})')
                    return
