"""P13: filling the gaps of a grid."""
import numpy as np

import simrt
import zoo
from harness import Prop, attempt, sched, shrink_sched
from ops import rng_of

from .faults import BAD
from .parallel import report_races


# ---------------------------------------------------------------------------
# Reference models
def relax(a, circle, guess, limit, eps, w):
    """Gauss-Seidel relaxation: the cells whose sum of indexes is even, then
    the others.  Returns (iterations, residual)."""
    f = a.dtype.type
    mask = np.isnan(a)
    if not mask.any():
        return 0, 0.
    nx, ny = a.shape
    for y in range(ny):
        ok = ~mask[:, y]
        if guess == 'zero' or not ok.any():
            a[mask[:, y], y] = 0
        else:
            a[mask[:, y], y] = a[ok, y].astype('f8').mean()
    n = 0
    worst = 0.
    for n in range(1, limit + 1):
        worst = 0.
        for colour in (0, 1):
            for x in range(nx):
                x0 = (nx - 1 if circle else min(1, nx - 1)) if x == 0 \
                    else x - 1
                x1 = (0 if circle else max(nx - 2, 0)) if x == nx - 1 \
                    else x + 1
                for y in range(ny):
                    if mask[x, y] and (x + y) % 2 == colour:
                        y0 = min(1, ny - 1) if y == 0 else y - 1
                        y1 = max(ny - 2, 0) if y == ny - 1 else y + 1
                        d = (f(.25) * (a[x0, y] + a[x1, y] + a[x, y0] +
                                       a[x, y1]) - a[x, y]) * f(w)
                        a[x, y] += d
                        worst = max(worst, abs(float(d)))
        if worst < eps:
            break
    return n, worst


def line(v, undefined):
    """Linear interpolation of a line, extended by its mean slope."""
    ok = np.flatnonzero(~undefined)
    if len(ok) < 2:
        return False
    for a, b in zip(ok, ok[1:]):
        for i in range(a + 1, b):
            v[i] = v[a] + (v[b] - v[a]) / (b - a) * (i - a)
    a, b = ok[0], ok[-1]
    slope = (v[b] - v[a]) / (b - a)
    for i in range(b + 1, len(v)):
        v[i] = v[b] + slope * (i - b)
    for i in range(a):
        v[i] = v[a] - slope * (a - i)
    return True


def mirror(i, n, circle):
    if circle:
        return i % n
    if n == 1:
        return 0
    i %= 2 * (n - 1)
    return i if i < n else 2 * (n - 1) - i


def local(a, x, y, circle, nx, ny, kind):
    """Locally weighted mean of the values around every cell of a slice."""
    out = a.astype('f8')
    for i in range(a.shape[0]):
        xs = [mirror(i + d, len(x), circle) for d in range(-nx, nx + 1)]
        x0 = x[xs[0]]
        for j in range(a.shape[1]):
            undefined = np.isnan(a[i, j])
            if kind == 'undefined' and not undefined or \
                    kind == 'defined' and undefined:
                continue
            ys = [mirror(j + d, len(y), False) for d in range(-ny, ny + 1)]
            s = w = 0.
            xi = turn(x[i], x0) if circle else x[i]
            for p in xs:
                xp = turn(x[p], x0) if circle else x[p]
                for q in ys:
                    z = float(a[p, q])
                    if z != z:
                        continue
                    d = np.hypot((xp - xi) / nx, (y[q] - y[j]) / ny)
                    if d <= 1:
                        k = (1 - d**3)**3
                        s += k * z
                        w += k
            if w != 0:
                out[i, j] = s / w
    return out


def turn(x, lo):
    return (x - lo) % 360. + lo


def close(a, b, tol):
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol,
                                              equal_nan=True)


# ---------------------------------------------------------------------------
class P13(Prop):
    id = 'P13'
    races = True

    def generate(self, r, index):
        what = str(r.choice(['gauss_seidel', 'gauss_seidel', 'gauss_seidel3',
                             'loess', 'loess', 'loess3', 'loess4',
                             'matrix', 'vector']))
        sc = dict(what=what, seed=int(r.integers(1 << 30)), sched=sched(r),
                  nx=int(r.choice([1, 2, 3, 4, 7, 12])),
                  ny=int(r.choice([1, 2, 3, 5, 9])),
                  nz=int(r.integers(1, 5)),
                  dtype=str(r.choice(['float64', 'float64', 'float32'])),
                  circle=bool(r.random() < .5),
                  gaps=float(r.choice([0, .05, .3, .3, .7, .95, 1])),
                  order=str(r.choice(['C', 'F', 'step', 'back'])),
                  threads=int(r.choice([0, 1, 1, 2, 3, 5, 9])),
                  guess=str(r.choice(['zero', 'zonal_average'])),
                  limit=int(r.choice([0, 1, 2, 5, 12])),
                  eps=float(r.choice([1e-4, 1e-2, .5])),
                  relax=float(r.choice([.5, 1., 1.3, 1.9])),
                  layer=str(r.choice(['python', 'core'])),
                  wx=int(r.integers(1, 4)), wy=int(r.integers(1, 4)),
                  values=str(r.choice(['undefined', 'undefined', 'defined',
                                       'all'])),
                  marker=bool(r.random() < .3),
                  kind=str(r.choice(['f8', 'f8', 'f4', 'i8', 'M8', 'm8'])),
                  in_place=bool(r.integers(0, 2)),
                  auto=bool(r.random() < .2))
        u = r.random()
        if u < .2:
            sc['alloc'] = int(r.integers(0, 40))
        elif u < .4:
            at = int(r.integers(0, 6))
            sc['refuse'] = [at, at + int(r.choice([1, 1 << 40]))]
        return sc

    def shrink(self, sc):
        for k in ('alloc', 'refuse'):
            if k in sc:
                yield {a: b for a, b in sc.items() if a != k}
        for k, small in (('nx', 1), ('ny', 1), ('nz', 1), ('limit', 1),
                         ('wx', 1), ('wy', 1)):
            if sc[k] > small:
                yield dict(sc, **{k: sc[k] - 1})
        if sc['order'] != 'C':
            yield dict(sc, order='C')
        if sc['threads'] > 1:
            yield dict(sc, threads=sc['threads'] - 1)
        yield from shrink_sched(sc)

    # -- data
    def data(self, sc, shape):
        r = rng_of(sc['seed'])
        v = np.round(r.normal(size=shape) * 8) / 4
        v[r.random(shape) < sc['gaps']] = np.nan
        return v.astype(sc['dtype'])

    def layout(self, sc, v):
        """The same values laid out in another way."""
        if sc['order'] == 'F':
            return np.asfortranarray(v)
        if sc['order'] == 'step':
            big = np.full([2 * n + 1 for n in v.shape], 77, v.dtype)
            out = big[tuple(slice(0, 2 * n, 2) for n in v.shape)]
            out[...] = v
            return out
        if sc['order'] == 'back':
            rev = tuple(slice(None, None, -1) for _ in v.shape)
            out = np.ascontiguousarray(v[rev])[rev]
            return out
        return v.copy()

    def axes(self, sc):
        C = zoo.C()
        n, m = sc['nx'], sc['ny']
        x = C.Axis(np.arange(n) * (360. / n) if sc['circle'] and n > 1
                   else np.arange(n) * 1.5,
                   is_circle=bool(sc['circle'] and n > 1))
        return x, C.Axis(np.arange(m) * 1.25)

    def execute(self, sc, out):
        what = sc['what']
        out.tag('fill:' + what)
        getattr(self, what.rstrip('34'))(sc, out)

    def call(self, sc, out, fn, what):
        fault = {}
        if 'refuse' in sc:
            fault['threads'] = tuple(sc['refuse'])
        if 'alloc' in sc:
            fault['allocs'] = (sc['alloc'], sc['alloc'] + 1)
        before = int(simrt.shared.alloc_fail), int(simrt.shared.thread_fail)
        with simrt.session(simrt.make_config(sc['sched'], fault)):
            if 'alloc' in sc:
                simrt.lib.sim_alloc_window(1)
            try:
                a = attempt(fn)
            finally:
                if 'alloc' in sc:
                    simrt.lib.sim_alloc_window(0)
        report_races(out, what, BAD)
        if simrt.shared.status == 3:
            out.fail('leaked-thread', f'{what}: a thread outlives the call')
        fired = int(simrt.shared.alloc_fail) - before[0] + \
            int(simrt.shared.thread_fail) - before[1]
        if fired:
            out.tag('fault:memory refused' if 'alloc' in sc else
                    'fault:thread refused', fired)
            out.nontrivial = True
        out.nontrivial |= sc['threads'] != 1
        out.note((what, a[0], fired))
        if a[0] == 'err' and a[1] == 'TypeError' and sc['order'] == 'back' \
                and 'incompatible function' in a[2]:
            return a  # negative strides are refused
        if a[0] == 'err' and not fired:
            out.fail('error', f'{what}: {a[1:]}')
        return a

    def gauss_seidel(self, sc, out):
        P, C = zoo.P(), zoo.C()
        cube = sc['what'].endswith('3')
        shape = (sc['nx'], sc['ny']) + ((sc['nz'],) if cube else ())
        v = self.data(sc, shape)
        want = v.copy()
        x, y = self.axes(sc)
        circle = x.is_circle
        limit, omega = sc['limit'], sc['relax']
        if sc['auto'] and (cube or sc['layer'] == 'python'):
            # the optimal relaxation, the number of cells
            n, m = shape[:2]
            limit = n * m
            size = n if n == m else n * m * np.sqrt(2 / (n * n + m * m))
            omega = 2 / (1 + np.pi / size)
        runs = [relax(s, circle, sc['guess'], limit, sc['eps'],
                      omega) for s in
                ([want[..., k] for k in range(sc['nz'])] if cube
                 else [want])]
        what = f'gauss_seidel {shape} {sc["dtype"]}'
        defined = ~np.isnan(v)
        tol = 1e-3 if sc['dtype'] == 'float32' else 1e-8
        if cube or sc['layer'] == 'python':
            axes = (x, y) + ((C.Axis(np.arange(sc['nz']) * 1.),)
                             if cube else ())
            grid = (P.Grid3D if cube else P.Grid2D)(*axes, v.copy())
            fn = lambda: P.fill.gauss_seidel(  # noqa: E731
                grid, sc['guess'], None if sc['auto'] else sc['limit'],
                sc['eps'], None if sc['auto'] else sc['relax'],
                sc['threads'])
            a = self.call(sc, out, fn, what)
            if not np.array_equal(grid.array, v, equal_nan=True):
                out.fail('input', f'{what}: the grid given changed')
            if a[0] == 'err' or out.viol:
                return
            ok, got = a[1]
            worst = max(w for _, w in runs)
            if abs(worst - sc['eps']) > tol * 10 and \
                    bool(ok) != (worst <= sc['eps']):
                out.fail('converged', f'{what}: converged is {ok}, the '
                         f'residual is {worst}, the tolerance {sc["eps"]}')
        else:
            got = self.layout(sc, v)
            suffix = sc['dtype']
            fn = lambda: getattr(  # noqa: E731
                C.fill, 'gauss_seidel_' + suffix)(
                    got, C.fill.FirstGuess.Zero if sc['guess'] == 'zero'
                    else C.fill.FirstGuess.ZonalAverage, circle, sc['limit'],
                    sc['eps'], sc['relax'], sc['threads'])
            a = self.call(sc, out, fn, what)
            if not np.array_equal(got[defined], v[defined]):
                out.fail('defined', f'{what}: defined values changed '
                         f'({a[0]})')
            if got.base is not None and sc['order'] == 'step' and \
                    not (got.base[1::2] == 77).all():
                out.fail('outside', f'{what}: wrote between the values')
            if a[0] == 'err' or out.viol:
                return
            n, worst = a[1]
            if n > sc['limit']:
                out.fail('limit', f'{what}: {n} iterations, the limit is '
                         f'{sc["limit"]}')
            m, w = runs[0]
            near = abs(w - sc['eps']) < tol * 10
            if not near and (n != m or abs(w - worst) > tol * 10 * (1 + w)):
                out.fail('iterations', f'{what}: {n} iterations, residual '
                         f'{worst}, instead of {m} and {w}')
            if near:
                return
        if not np.array_equal(got[defined], v[defined]):
            out.fail('defined', f'{what}: defined values changed')
        if np.isnan(got).any():
            out.fail('gap', f'{what}: cells are still undefined')
        elif not close(got, want, tol):
            out.fail('value', f'{what}: {self.worst(got, want)}')
        out.note(got.tobytes())

    def worst(self, got, want):
        d = np.abs(np.nan_to_num(got.astype('f8')) -
                   np.nan_to_num(want.astype('f8'))) + \
            1e9 * (np.isnan(got) != np.isnan(want))
        i = np.unravel_index(d.argmax(), d.shape)
        return f'cell {tuple(map(int, i))}: {got[i]} instead of {want[i]}'

    def loess(self, sc, out):
        P, C = zoo.P(), zoo.C()
        shape = (sc['nx'], sc['ny'])
        if sc['what'][-1] in '34':
            shape += (sc['nz'],)
        if sc['what'][-1] == '4':
            shape += (1 + sc['seed'] % 3,)
        v = self.data(sc, shape)
        x, y = self.axes(sc)
        what = f'loess {shape} {sc["dtype"]} {sc["values"]}'
        ax = np.array([x[i] for i in range(len(x))])
        ay = np.array([y[i] for i in range(len(y))])
        flat = v.reshape(shape[:2] + (-1,))
        want = np.stack([local(flat[..., k], ax, ay, x.is_circle, sc['wx'],
                               sc['wy'], sc['values'])
                         for k in range(flat.shape[2])], -1).reshape(shape)
        axes = (x, y) + tuple(C.Axis(np.arange(n) * 1.) for n in shape[2:])
        grid = getattr(P, f'Grid{len(shape)}D')(*axes, v.copy())
        a = self.call(sc, out, lambda: P.fill.loess(
            grid, sc['wx'], sc['wy'], sc['values'], sc['threads']), what)
        if not np.array_equal(grid.array, v, equal_nan=True):
            out.fail('input', f'{what}: the grid given changed')
        if a[0] == 'err' or out.viol:
            return
        got = a[1]
        keep = np.isnan(v) if sc['values'] == 'defined' else ~np.isnan(v)
        if sc['values'] != 'all' and not np.array_equal(
                got[keep], v[keep], equal_nan=True):
            out.fail('defined', f'{what}: values that are not processed '
                     'changed')
        tol = 1e-3 if sc['dtype'] == 'float32' else 1e-7
        if not close(got, want.astype(got.dtype), tol):
            out.fail('value', f'{what}: {self.worst(got, want)}')
        out.note(got.tobytes())

    def marked(self, sc, v):
        """Gaps marked by NaN or by a value."""
        if sc['marker']:
            return np.where(np.isnan(v), v.dtype.type(-99), v), -99.
        return v, np.nan

    def matrix(self, sc, out):
        P, C = zoo.P(), zoo.C()
        v = self.data(sc, (sc['nx'], sc['ny']))
        gap = np.isnan(v)
        want = v.astype('f8')
        m = gap.copy()
        for i in range(v.shape[0]):
            if line(want[i], m[i]):
                m[i] = False
        for j in range(v.shape[1]):
            line(want[:, j], m[:, j])
        src, mark = self.marked(sc, v)
        want = np.where(np.isnan(want), mark, want)
        src = self.layout(sc, src)
        what = f'matrix {v.shape} {sc["dtype"]}'
        keep = src.copy()
        if sc['layer'] == 'python':
            fn = lambda: P.fill.matrix(  # noqa: E731
                src, mark, sc['in_place'])
        else:
            def fn():
                getattr(C.fill, 'matrix_' + sc['dtype'])(src, mark)
                return src
        a = self.call(sc, out, fn, what)
        if sc['layer'] == 'python' and not sc['in_place'] and \
                not np.array_equal(src, keep, equal_nan=True):
            out.fail('input', f'{what}: the array given changed')
        got = a[1] if a[0] == 'ok' else src
        if not np.array_equal(got[~gap], v[~gap]):
            out.fail('defined', f'{what}: defined values changed')
        if a[0] == 'err' or out.viol:
            return
        tol = 1e-3 if sc['dtype'] == 'float32' else 1e-8
        if not close(got, want.astype(got.dtype), tol):
            out.fail('value', f'{what}: {self.worst(got, want)}')
        out.note(got.tobytes())

    def vector(self, sc, out):
        P, C = zoo.P(), zoo.C()
        n = sc['nx'] * sc['ny']
        r = rng_of(sc['seed'])
        kind = sc['kind']
        gap = r.random(n) < sc['gaps']
        v = np.cumsum(r.integers(1, 30, n)) * 60
        want = v.astype('f8')
        want[gap] = np.nan
        line(want, gap)
        mark = -99
        if kind in ('f8', 'f4'):
            src = v.astype(kind)
            mark = np.nan if not sc['marker'] else -99.
        elif kind == 'i8':
            src = v.astype('i8')
        else:
            src = v.astype(kind + '[s]')
            mark = np.datetime64('NaT', 's') if kind == 'M8' else \
                np.timedelta64('NaT', 's')
        src = src.copy()
        src[gap] = mark
        keep = src.copy()
        what = f'vector {n} {kind}'
        a = self.call(sc, out, lambda: P.fill.vector(
            src, mark, sc['in_place']), what)
        if not sc['in_place'] and keep.tobytes() != src.tobytes():
            out.fail('input', f'{what}: the array given changed')
        got = a[1] if a[0] == 'ok' else src
        if not np.array_equal(got[~gap], keep[~gap]):
            out.fail('defined', f'{what}: defined values changed')
        if a[0] == 'err' or out.viol:
            return
        if (~gap).sum() < 2:
            if got.tobytes() != keep.tobytes():
                out.fail('value', f'{what}: gaps filled from nothing')
        else:
            # integers: the slope is rounded
            tol = 1e-3 if kind == 'f4' else 1e-8 if kind == 'f8' else \
                float(n)
            d = np.abs(got.astype('i8' if kind not in ('f8', 'f4') else
                                  'f8').astype('f8') - want)
            if not (d <= tol * (1 + (np.abs(want) if kind == 'f4' else 0))
                    ).all():
                i = int(d.argmax())
                out.fail('value', f'{what}: {got[i]} instead of {want[i]}')
        out.note(got.tobytes())
