"""P10: histories of search trees against a list of points."""
import copy
import json
import pathlib
import pickle

import numpy as np

import simrt
import zoo
from harness import Prop, attempt, sched, shrink_sched
from ops import lonlat, rng_of


def layout(a, how):
    """The same values in another memory layout."""
    if how == 'F' and a.ndim == 2:
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full(tuple(2 * n for n in a.shape), 77, a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    return a


class Cartesian:
    """pyinterp.RTree."""

    def __init__(self, sc):
        self.sc = sc
        self.dtype = np.dtype(sc['dtype'])
        self.eps = 30. if sc['dtype'] == 'float32' else 1e-5

    def system(self):
        if self.sc['ecef'] or not self.sc['wgs']:
            return None
        return zoo.P().geodetic.Spheroid((6378000., 1 / 299.))

    def new(self):
        return zoo.P().RTree(self.system(), self.dtype, self.sc['ecef'])

    def points(self, seed, n, cols):
        r = rng_of(seed)
        sc = self.sc
        lon, lat = lonlat(seed, n, sc['spread'])
        if sc['south']:
            lon, lat = -np.abs(lon) - 3, -np.abs(lat) - 2
        if sc['ecef']:
            c = [lon * 1e5, lat * 1e5]
        else:
            c = [lon, lat]
        if cols == 3:
            c.append(r.uniform(0, 1e4, n))
        return np.column_stack(c).astype(self.dtype)

    def give(self, o, how, pts, val, lay):
        getattr(o, how)(layout(pts, lay), layout(val, lay))

    def xyz(self, pts):
        p = pts.astype('f8')
        if p.shape[1] == 2:
            p = np.column_stack([p, np.zeros(len(p))])
        if self.sc['ecef']:
            return p
        if self.sc['wgs']:
            a, f = 6378000., 1 / 299.
        else:
            a, f = 6378137., 1 / 298.257223563
        e2 = f * (2 - f)
        lo, la = np.radians(p[:, 0]), np.radians(p[:, 1])
        n = a / np.sqrt(1 - e2 * np.sin(la)**2)
        return np.column_stack([(n + p[:, 2]) * np.cos(la) * np.cos(lo),
                                (n + p[:, 2]) * np.cos(la) * np.sin(lo),
                                (n * (1 - e2) + p[:, 2]) * np.sin(la)])

    def distances(self, pts, q):
        a, b = self.xyz(pts), self.xyz(q)
        return np.sqrt(((b[:, None] - a[None])**2).sum(-1))

    def tol(self, d):
        return self.eps + abs(d) * 1e-6

    def query(self, o, q, k, within, n, lay):
        return o.query(layout(q, lay), k=k, within=within, num_threads=n)

    def inside(self, pts, sel, q):
        """True, False or None (not clear) for one query."""
        a, b = self.xyz(pts)[sel], self.xyz(q)[0]
        lo, hi = a.min(0), a.max(0)
        if np.all((b > lo + self.eps) & (b < hi - self.eps)):
            return True
        if np.any((b < lo - self.eps) | (b > hi + self.eps)):
            return False
        return None

    def args(self, q):
        return (q, )

    def idw(self, o, q, radius, k, p, n, lay):
        return o.inverse_distance_weighting(layout(q, lay), radius, k, p,
                                            within=False, num_threads=n)


class Geodetic(Cartesian):
    """pyinterp.geodetic.RTree."""

    def __init__(self, sc):
        super().__init__(dict(sc, dtype='float64', ecef=False))
        self.eps = 1.

    def new(self):
        return zoo.P().geodetic.RTree(self.system())

    def points(self, seed, n, cols):
        return super().points(seed, n, 2)

    def give(self, o, how, pts, val, lay):
        getattr(o, how)(pts[:, 0].copy(), pts[:, 1].copy(), val)

    def distances(self, pts, q):
        a, b = np.radians(pts), np.radians(q)
        dl = b[:, None, 0] - a[None, :, 0]
        dp = b[:, None, 1] - a[None, :, 1]
        h = np.sin(dp / 2)**2 + np.cos(b[:, None, 1]) * np.cos(
            a[None, :, 1]) * np.sin(dl / 2)**2
        return 2 * 6371000. * np.arcsin(np.sqrt(np.clip(h, 0, 1)))

    def tol(self, d):
        return self.eps + abs(d) * .008  # sphere instead of spheroid

    def query(self, o, q, k, within, n, lay):
        lay = "C"  # others are refused
        return o.query(layout(q[:, 0].copy(), lay), layout(
            q[:, 1].copy(), lay), k=k, within=within, num_threads=n)

    def inside(self, pts, sel, q):
        a, b = pts[sel], q[0]
        lo, hi = a.min(0), a.max(0)
        if hi[0] - lo[0] > 170:
            return None
        if np.all((b > lo + 1e-9) & (b < hi - 1e-9)):
            return True
        if np.any((b < lo - 1e-9) | (b > hi + 1e-9)):
            return False
        return None

    def args(self, q):
        return q[:, 0].copy(), q[:, 1].copy()

    def idw(self, o, q, radius, k, p, n, lay):
        lay = "C"
        return o.inverse_distance_weighting(
            layout(q[:, 0].copy(), lay), layout(q[:, 1].copy(), lay), radius,
            k, p, within=False, num_threads=n)


def windows(name, d, r, arg):
    """Weights of neighbours at distances d in a window of radius r."""
    x = np.pi * (d + r) / r
    c = np.cos
    if name == 'hamming':
        return .53836 - .46164 * c(x)
    if name == 'blackman':
        return (7938 - 9240 * c(x) + 1430 * c(2 * x)) / 18608
    if name == 'blackman_harris':
        return .35875 - .48829 * c(x) + .14128 * c(2 * x) - .01168 * c(3 * x)
    if name == 'flat_top':
        return .21557895 - .41663158 * c(x) + .277263158 * c(2 * x) \
            - .083578947 * c(3 * x) + .006947368 * c(4 * x)
    if name == 'nuttall':
        return .3635819 - .4891775 * c(x) + .1365995 * c(2 * x)
    if name == 'lanczos':
        return np.sinc(d / r) * np.sinc(d / (r * arg))
    if name == 'gaussian':
        return np.exp(-.5 * (d / arg)**2)
    return np.ones_like(d)


WINDOWS = ['hamming', 'blackman', 'blackman_harris', 'flat_top', 'nuttall',
           'lanczos', 'gaussian', 'boxcar']

RADIAL = dict(
    cubic=lambda r, e: r**3,
    gaussian=lambda r, e: np.exp(-(e * r)**2),
    inverse_multiquadric=lambda r, e: 1 / np.sqrt((e * r)**2 + 1),
    linear=lambda r, e: r,
    multiquadric=lambda r, e: np.sqrt((e * r)**2 + 1),
    thin_plate=lambda r, e: r**2 * np.log(np.where(r == 0, 1, r)))

COVARIANCE = dict(
    matern_12=lambda x: np.exp(-x),
    matern_32=lambda x: (1 + np.sqrt(3) * x) * np.exp(-np.sqrt(3) * x),
    matern_52=lambda x: (1 + np.sqrt(5) * x + 5 / 3 * x * x) * np.exp(
        -np.sqrt(5) * x),
    whittle_matern=lambda x: (1 + np.sqrt(3) * x) * np.exp(
        -np.sqrt(3) * x),
    cauchy=lambda x: 1 / (1 + x * x),
    exponential=lambda x: np.exp(-x),
    gaussian=lambda x: np.exp(-x * x),
    spherical=lambda x: np.where(x > 1, 0, 1 - 1.5 * x + .5 * x**3))


# call, arguments, documented values of those left out
DEFAULTS = [
    ('query', {}, dict(k=4)),
    ('inverse_distance_weighting', {}, dict(k=9, p=2, within=True)),
    ('radial_basis_function', {}, dict(k=9, rbf='multiquadric', smooth=0,
                                       within=True)),
    ('window_function', dict(radius=1e6), dict(k=9, within=True)),
    ('window_function', dict(radius=1e6, wf='lanczos', within=False),
     dict(arg=1)),
    ('window_function', dict(radius=1e6, wf='parzen', within=False),
     dict(arg=0)),
    ('universal_kriging', {}, dict(k=9, sigma=1., alpha=1e6, within=True)),
]


class P10(Prop):
    id = 'P10'

    def generate(self, r, index):
        if index < 2:
            return dict(line=['insert', 'packing'][index], sched=sched(r))
        acts = []
        for _ in range(int(r.integers(1, 10))):
            u = r.random()
            n = int(r.choice([0, 1, 2, 7, 16, 17, 40, 120]))
            lay = str(r.choice(['C', 'C', 'F', 'strided', 'reversed']))
            rep = str(r.choice(['no', 'no', 'stored', 'batch', 'one']))
            if u < .38:
                acts.append(['insert', int(r.integers(1 << 30)), n, lay, rep])
            elif u < .5:
                acts.append(['packing', int(r.integers(1 << 30)), n, lay,
                             rep])
            elif u < .55:
                acts.append(['clear'])
            elif u < .68:
                acts.append(['restart', str(r.choice(
                    ['p2', 'p4', 'p5', 'deepcopy']))])
            else:
                acts.append(['query', int(r.integers(1 << 30)),
                             int(r.choice([1, 3, 9])), lay])
        acts.append(['query', int(r.integers(1 << 30)), 4, 'C'])
        return dict(tree=str(r.choice(['cartesian', 'cartesian',
                                       'geodetic'])),
                    dtype=str(r.choice(['float64', 'float64', 'float32'])),
                    ecef=bool(r.random() < .25), wgs=bool(r.random() < .3),
                    cols=int(r.choice([2, 3])),
                    spread=float(r.choice([2, 20, 60])),
                    south=bool(r.random() < .3), acts=acts, sched=sched(r),
                    odd=str(r.choice(['no', 'no', 'nan', 'inf'])))

    def line(self, sc, out):
        """Points on both sides of the date line: a fixed scenario, where
        some neighbours are known to be lost."""
        r = rng_of(5)
        pts, q = (np.column_stack([r.uniform(120, 240, n),
                                   r.uniform(-60, 60, n)])
                  for n in (300, 200))
        for a in (pts, q):
            a[:, 0] = (a[:, 0] + 180) % 360 - 180
        t = Geodetic(dict(wgs=False))
        o = t.new()
        t.give(o, sc['line'], pts, np.arange(300.), 'C')
        with simrt.session(simrt.make_config(sc['sched'], races=False)):
            d, v = t.query(o, q, 1, False, 2, 'C')
        ref = t.distances(pts, q)
        lost = []
        for i in range(len(q)):
            k = int(v[i, 0]) if 0 <= v[i, 0] < 300 else -1
            if k < 0 or abs(float(d[i, 0]) - ref[i, k]) > t.tol(ref[i, k]):
                out.fail('query', f'date line: query {i}: value {v[i, 0]} at '
                         f'{d[i, 0]}')
                return
            if ref[i].min() < ref[i, k] - 2 * t.tol(ref[i, k]):
                lost.append(i)
        out.tag('object:geodetic over the date line')
        if lost:
            out.fail('date-line', f'the nearest points of the queries {lost} '
                     'are lost')

    def known(self, sc, cls, msg):
        if cls != 'date-line':
            return None
        path = pathlib.Path(__file__).parents[2] / 'known_findings.json'
        for f in json.loads(path.read_text())['findings']:
            if f['property'] == 'P10' and len(json.loads(
                    msg[msg.index('['):msg.index(']') + 1])) <= \
                    f['lost_at_most']:
                return f['id']
        return None

    def shrink(self, sc):
        if 'line' in sc:
            return
        for i in range(len(sc['acts'])):
            yield dict(sc, acts=sc['acts'][:i] + sc['acts'][i + 1:])
        for i, a in enumerate(sc['acts']):
            if len(a) > 2 and a[2] > 1:
                b = list(sc['acts'])
                b[i] = a[:2] + [a[2] // 2] + a[3:]
                yield dict(sc, acts=b)
        yield from shrink_sched(sc)

    def execute(self, sc, out):
        if 'line' in sc:
            self.line(sc, out)
            return
        t = (Geodetic if sc['tree'] == 'geodetic' else Cartesian)(sc)
        out.tag('object:' + sc['tree'])
        o = t.new()
        cols = sc['cols'] if sc['tree'] == 'cartesian' else 2
        pts = np.zeros((0, cols), t.dtype)
        val = np.zeros(0, t.dtype)
        aside = []
        for i, act in enumerate(sc['acts']):
            do = act[0]
            out.note(str(act))
            if do in ('insert', 'packing'):
                p = t.points(act[1], act[2], cols)
                self.repeat(act, p, pts)
                v = (np.arange(act[2]) + 1000 * (i + 1)).astype(t.dtype)
                if sc['odd'] != 'no' and len(v) and (
                        do == 'packing' or not np.any(~np.isfinite(val))):
                    # at most one such value in the tree: it is an identity
                    v[act[1] % len(v)] = float(sc['odd'])
                    out.tag('value: ' + sc['odd'])
                before = p.tobytes()
                t.give(o, do, p, v, act[3])
                if p.tobytes() != before:
                    out.fail('input-modified', do)
                if do == 'packing':
                    pts, val = pts[:0], val[:0]
                pts, val = np.concatenate([pts, p]), np.concatenate([val, v])
            elif do == 'clear':
                o.clear()
                pts, val = pts[:0], val[:0]
            elif do == 'restart':
                c = pickle.loads(pickle.dumps(o, int(act[1][1]))) \
                    if act[1][0] == 'p' else copy.deepcopy(o)
                aside.append((o, len(val)))
                o = c
                out.tag('fault:restart')
                out.nontrivial = True
            if len(o) != len(val) or bool(o) != (len(val) > 0):
                out.fail('length', f'{sc["tree"]} after {do}: {len(o)} '
                         f'points instead of {len(val)}')
                return
            if do == 'query':
                d = self.query(sc, t, o, pts, val, act, cols, out)
                if d:
                    out.fail('query', f'{sc["tree"]}: {d}')
                    return
            if sc['tree'] == 'cartesian':
                d = self.bounds(t, o, pts)
                if d:
                    out.fail('bounds', d)
                    return
        for x, n in aside:
            if len(x) != n:
                out.fail('shared', f'{sc["tree"]}: a restored copy changed '
                         'the original')

    def repeat(self, act, p, pts):
        """Some of the new points are copies of others."""
        how = act[4] if len(act) > 4 else 'no'
        n = len(p)
        r = rng_of(act[1] + 7)
        if n == 0 or how == 'no':
            return
        if how == 'stored' and len(pts):
            k = r.random(n) < .5
            p[k] = pts[r.integers(0, len(pts), int(k.sum()))]
        elif how == 'batch':
            p[r.integers(0, n, n // 2)] = p[r.integers(0, n, n // 2)]
        else:
            p[:] = (pts if len(pts) and r.random() < .5 else p)[0]

    def bounds(self, t, o, pts):
        if t.sc['ecef'] or len(pts) == 0:
            return None
        lo, hi = o.bounds()
        p = pts.astype('f8')
        if p.shape[1] == 2:
            p = np.column_stack([p, np.zeros(len(p))])
        e = np.array([1e-4, 1e-4, 30.]) if t.dtype == np.float32 else \
            np.array([1e-9, 1e-9, 1e-3])
        x = p.copy()
        x[:, 0] = (x[:, 0] + 180) % 360 - 180
        if np.any(np.abs(lo - x.min(0)) > e) or \
                np.any(np.abs(hi - x.max(0)) > e):
            return f'bounds {lo} {hi} instead of {x.min(0)} {x.max(0)}'
        return None

    def query(self, sc, t, o, pts, val, act, cols, out):
        r = rng_of(act[1])
        q = t.points(act[1] + 1, act[2], cols)
        if len(pts) and r.random() < .3:
            q[0] = pts[int(r.integers(len(pts)))]
        k = int(r.choice([1, 2, 4, 11, 30]))
        within = bool(r.random() < .4)
        n = int(r.choice([0, 1, 2, 3]))
        cfg = simrt.make_config(sc['sched'], races=False)
        with simrt.session(cfg):
            d, v = t.query(o, q, k, within, n, act[3])
        if simrt.shared.preemptions:
            out.nontrivial = True
        if d.shape != (len(q), k) or v.shape != d.shape:
            return f'shape {d.shape} {v.shape} for {len(q)} queries, k={k}'
        out.note(zoo.canon(np.sort(v, axis=1)))
        ref = t.distances(pts, q) if len(pts) else np.zeros((len(q), 0))
        for i in range(len(q)):
            ok = d[i] >= 0
            found = int(ok.sum())
            want = min(k, len(val))
            order = np.argsort(ref[i], kind='stable')[:want]
            if within and len(val):
                far = ref[i][order[-1]] if want else 0
                # the neighbours must be the same for any rounding
                clear = want == len(val) or \
                    np.sort(ref[i])[want] > far + 2 * t.tol(far)
                inside = t.inside(pts, order, q[i:i + 1]) if clear else None
                if found not in (0, want):
                    return f'{found} neighbours instead of 0 or {want}'
                if inside is True and found == 0:
                    return 'no neighbour for a point they surround'
                if inside is False and found:
                    return 'neighbours for a point they do not surround'
                if found == 0:
                    if np.any(d[i] != -1) or np.any(v[i] != -1):
                        return f'{d[i]} {v[i]} without neighbours'
                    continue
            if found != want:
                return f'{found} neighbours instead of {want} (k={k})'
            if np.any(ok[found:]):
                return 'neighbours after the missing ones'
            if np.any(d[i][found:] != -1) or np.any(v[i][found:] != -1):
                return f'{d[i]} {v[i]}: missing neighbours are not marked'
            ids = v[i][:found]
            if len(set(ids.tolist())) != found:
                return f'a point is returned twice: {ids}'
            same = (val == ids[:, None]) | (np.isnan(val) &
                                            np.isnan(ids[:, None]))
            at = np.where(same.any(1), same.argmax(1), -1) if len(val) \
                else np.full(len(ids), -1)
            if np.any(at < 0):
                return f'values {ids} were never stored'
            dist = ref[i][at]
            for a, b in zip(d[i][:found], dist):
                if abs(float(a) - b) > t.tol(b):
                    return f'distance {a} instead of {b}'
            if found:
                worst = dist.max()
                rest = np.delete(ref[i], at)
                if len(rest) and rest.min() < worst - 2 * t.tol(worst):
                    return (f'a point at {rest.min()} is missing, one at '
                            f'{worst} is returned')
                if np.any(np.diff(dist) < -2 * t.tol(worst)):
                    return f'neighbours are not sorted: {dist}'
        # inverse distance weighting of the same neighbours
        p = int(r.integers(1, 4))
        radius = None if r.random() < .5 else float(r.choice([5e4, 5e5, 3e6]))
        with simrt.session(cfg):
            z, cnt = t.idw(o, q, radius, k, p, n, act[3])
        for i in range(len(q)):
            want = min(k, len(val))
            order = np.argsort(ref[i], kind='stable')[:want]
            dd = ref[i][order]
            if want and want < len(val) and \
                    np.sort(ref[i])[want] < dd[-1] + 2 * t.tol(dd[-1]):
                continue
            if want and (dd.min() < 20 * t.eps):
                continue  # on a point
            R = radius or np.inf
            if np.any(np.abs(dd - R) < 2 * t.tol(R if radius else 0)):
                continue
            use = dd <= R
            if int(cnt[i]) != int(use.sum()):
                return f'idw used {cnt[i]} neighbours instead of {use.sum()}'
            if not use.any():
                if not np.isnan(z[i]):
                    return f'idw {z[i]} without neighbours'
                continue
            w = 1 / dd[use]**p
            m = (w * val[order][use]).sum() / w.sum()
            e = .03 if sc['tree'] == 'geodetic' else \
                (.02 if t.dtype == np.float32 else 1e-5)
            if not np.isfinite(m):
                if np.isfinite(z[i]):
                    return f'idw {z[i]} instead of {m}'
                continue
            spread = val[order][use].max() - val[order][use].min()
            if abs(float(z[i]) - m) > e * (spread + 1e-3 * abs(m)) + 1e-3:
                return f'idw {z[i]} instead of {m}'
        d = self.defaults(t, o, q, cfg, out)
        if d:
            return d
        if sc['tree'] == 'cartesian' and len(val):
            return self.estimates(sc, t, o, pts, val, q, ref, k, n, cfg,
                                  act, out)
        return None

    def defaults(self, t, o, q, cfg, out):
        """An argument left out takes the documented value."""
        x = t.args(q)
        out.tag('defaults')
        for name, kw, given in DEFAULTS:
            f = getattr(o, name, None)
            if f is None:
                continue
            with simrt.session(cfg):
                a = f(*x, **kw)
                b = f(*x, **kw, **given)
            for m, n in zip(a, b):
                if not np.array_equal(m, n, equal_nan=True):
                    return f'{name}({kw}) {m} instead of {n} with {given}'
        return None

    def estimates(self, sc, t, o, pts, val, q, ref, k, n, cfg, act, out):
        """The other estimates only use the neighbours: they are computed
        again from them."""
        r = rng_of(act[1] + 99)
        radius = None if r.random() < .5 else float(r.choice([5e4, 5e5, 3e6]))
        alpha = float(r.choice([1e5, 1e6]))
        eps = None if r.random() < .5 else float(r.choice([1e5, 1e6]))
        smooth = float(r.choice([0, 0, .5]))
        wf = str(r.choice(WINDOWS))
        arg = dict(lanczos=2., gaussian=2e5).get(wf)
        rbf = str(r.choice(sorted(RADIAL)))
        cov = str(r.choice(sorted(COVARIANCE)))
        if rbf in ('cubic', 'linear', 'thin_plate'):
            eps = None
        x = layout(q, act[3])
        kw = dict(within=False, num_threads=n)
        with simrt.session(cfg):
            near, nv = o.value(x, radius, k, **kw)
            w = o.window_function(x, radius, k, wf, arg, **kw)
            b = o.radial_basis_function(x, radius, k, rbf, eps, smooth, **kw)
            u = o.universal_kriging(x, radius, k, cov, 2., alpha, **kw)
        xp, xq = t.xyz(pts), t.xyz(q)
        want = min(k, len(val))
        for i in range(len(q)):
            order = np.argsort(ref[i], kind='stable')[:want]
            dd = ref[i][order]
            if want < len(val) and \
                    np.sort(ref[i])[want] < dd[-1] + 2 * t.tol(dd[-1]):
                continue
            R = radius or np.inf
            if np.any(np.abs(dd - R) < 2 * t.tol(R if radius else 0)):
                continue
            use = order[dd <= R]
            dd = dd[dd <= R]
            m = len(use)
            d = self.neighbours(sc, t, near[i], nv[i], pts[use], val[use])
            if d:
                return d
            for name, (z, c) in (('radial basis function', b),
                                 ('kriging', u)):
                if int(c[i]) != m:
                    return f'{name} used {c[i]} neighbours instead of {m}'
            if m == 0:
                if not (np.isnan(w[0][i]) and np.isnan(b[0][i]) and
                        np.isnan(u[0][i])):
                    return 'an estimate without neighbours'
                continue
            v = val[use].astype('f8')
            if not np.all(np.isfinite(v)) or t.dtype == np.float32:
                continue
            # window function
            rr = radius or dd[-1]
            if rr > t.eps:
                g = windows(wf, dd, rr, arg)
                if abs(g.sum()) > .02:
                    if int(w[1][i]) != m:
                        return f'window used {w[1][i]} neighbours, not {m}'
                    e = (g * v).sum() / g.sum()
                    if abs(w[0][i] - e) > 1e-5 * np.abs(g * v).sum() / \
                            abs(g.sum()) + 1e-6:
                        return f'{wf} window {w[0][i]} instead of {e}'
                    out.tag('estimate: window')
            # radial basis function, kriging
            p = xp[use]
            rm = np.sqrt(((p[:, None] - p[None])**2).sum(-1))
            ro = np.sqrt(((p - xq[i])**2).sum(-1))
            if m < 2 or rm[~np.eye(m, dtype=bool)].min() < 1:
                continue
            e = 1 / (eps or rm[np.triu_indices(m, 1)].mean())
            f = RADIAL[rbf]
            d = self.solve(rbf, b[0][i], f(rm, e) - smooth * np.eye(m),
                           f(ro, e), v, out)
            f = COVARIANCE[cov]
            d = d or self.solve(cov, u[0][i], 4 * f(rm / alpha),
                                4 * f(ro / alpha), v, out)
            if d:
                return d
        return None

    def solve(self, name, got, a, c, v, out):
        if np.linalg.cond(a) > 1e5:
            return None
        out.tag('estimate: linear system')
        x = np.linalg.solve(a, v)
        e = c @ x
        if abs(got - e) > 1e-6 * (np.abs(c) @ np.abs(x) + np.abs(v).max()):
            return f'{name} {got} instead of {e}'
        return None

    def neighbours(self, sc, t, at, found, pts, val):
        m = len(val)
        if not (np.all(np.isnan(found[m:])) and np.all(np.isnan(at[m:]))):
            return f'values {found}, {m} neighbours'
        for x, v in zip(at[:m], found[:m]):
            ix = [j for j in range(m)
                  if val[j] == v or (np.isnan(v) and np.isnan(val[j]))]
            if not ix:
                return f'value {v} is not one of the neighbours {val}'
            e = np.abs(x.astype('f8') - pts[ix[0]].astype('f8'))
            small = t.dtype == np.float32
            if sc['ecef']:
                lim = np.full(len(e), 1.)
            else:
                e[0] = min(e[0] % 360, -e[0] % 360)
                lim = np.array([2e-3, 2e-3, 100.] if small else
                               [1e-7, 1e-7, 1e-2])[:len(e)]
            if np.any(e > lim):
                return f'neighbour at {x} instead of {pts[ix[0]]}'
        if len(set(found[:m].tolist())) != m:
            return f'a neighbour is returned twice: {found}'
        return None
