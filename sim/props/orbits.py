"""P21: the passes of an orbit."""
import importlib

import numpy as np

import ops
import simrt
from harness import Prop, attempt, rng, sched, shrink_sched

NS = 1000000000


class Ephemeris:
    """A circular orbit whose ground track closes after a cycle."""

    def __init__(self, sc):
        self.sc = sc
        self.period = sc['period']
        self.cycle = sc['period'] * sc['revs']
        self.inc = np.radians(sc['inc'])
        self.start = np.radians(sc['start'])

    def phase(self, t):
        return self.start + 2 * np.pi * np.asarray(t) / self.period

    def position(self, t):
        """Longitude, latitude (degrees) t seconds after the first point."""
        u = self.phase(t)
        lat = np.degrees(np.arcsin(np.clip(np.sin(self.inc) * np.sin(u),
                                           -1, 1)))
        lon = self.sc['lon'] + np.degrees(
            np.arctan2(np.cos(self.inc) * np.sin(u), np.cos(u))) \
            - 360. * self.sc['drift'] * np.asarray(t) / self.cycle
        return (lon + 180) % 360 - 180, lat

    def southernmost(self):
        """First time of the southernmost latitude."""
        return ((-np.pi / 2 - self.start) % (2 * np.pi)) / (2 * np.pi) * \
            self.period

    def points(self):
        sc = self.sc
        step = sc['step']
        n = int(round(self.cycle / step))
        if sc['given']:
            n += sc['more']
        elif step > .5:
            n += 1
        t = np.arange(n) * step
        lon, lat = self.position(t)
        unit = {'s': 1, 'ms': 1000, 'ns': NS}[sc['unit']]
        return lon, lat, np.round(t * unit).astype('i8').astype(
            f"m8[{sc['unit']}]")


def apart(lon0, lat0, lon1, lat1):
    """Angle between points, in degrees."""
    a, b, c, d = map(np.radians, (lon0, lat0, lon1, lat1))
    h = np.sin((d - b) / 2)**2 + \
        np.cos(b) * np.cos(d) * np.sin((c - a) / 2)**2
    return np.degrees(2 * np.arcsin(np.sqrt(np.clip(h, 0, 1))))


def seconds(t):
    return np.asarray(t).astype('m8[ns]').astype('i8') / 1e9


def xyz(lon, lat):
    lo, la = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo),
                     np.sin(la)], -1)


def between(p, u, v, n):
    return ((np.cross(u, p) * n).sum(-1) >= 0) & \
        ((np.cross(p, v) * n).sum(-1) >= 0)


def aside(t, lon, lat):
    """Angle between a position and a track, in degrees."""
    u, p = xyz(*t), xyz(lon, lat)
    n = np.cross(u[:-1], u[1:])
    n /= np.linalg.norm(n, axis=-1, keepdims=True)
    d = np.degrees(np.abs(np.arcsin((n * p).sum(-1))))
    return float(min(apart(lon, lat, *t).min(),
                     d[between(p, u[:-1], u[1:], n)].min(initial=180)))


def half_orbit(t):
    d = (np.diff(t[0]) + 180) % 360 - 180
    return bool(np.all(d > 0) or np.all(d < 0)) and abs(d.sum()) < 200


def crossings(a, b):
    """Crossings of two tracks: [(position, angle, angular distance to the
    nearest end of a track)]."""
    u, v = xyz(*a), xyz(*b)
    na, nb = np.cross(u[:-1], u[1:]), np.cross(v[:-1], v[1:])
    na /= np.linalg.norm(na, axis=-1, keepdims=True)
    nb /= np.linalg.norm(nb, axis=-1, keepdims=True)
    x = np.cross(na[:, None], nb[None])
    size = np.linalg.norm(x, axis=-1)
    x /= np.where(size, size, 1)[..., None]
    out = []
    for sign in (1, -1):
        p = x * sign
        hit = between(p, u[:-1, None], u[1:, None], na[:, None]) & \
            between(p, v[None, :-1], v[None, 1:], nb[None]) & (size > 0)
        for i, j in zip(*np.nonzero(hit)):
            q = p[i, j]
            lon = float(np.degrees(np.arctan2(q[1], q[0])))
            lat = float(np.degrees(np.arcsin(np.clip(q[2], -1, 1))))
            ends = min(float(apart(lon, lat, t[0][k], t[1][k]))
                       for t in (a, b) for k in (0, -1))
            out.append((lon, lat, float(np.degrees(np.arcsin(min(
                size[i, j], 1)))), ends))
    return out


class P21(Prop):
    id = 'P21'

    def prepare(self):
        simrt.load_package()
        self.orbit = importlib.import_module('pyinterp.orbit')
        self.geodetic = importlib.import_module('pyinterp.geodetic')

    def generate(self, r, index):
        hr = bool(r.random() < .3)
        revs = int(r.integers(1, 5))
        if hr:
            unit = str(r.choice(['ms', 'ns']))
            step = float(r.choice([.25, .5]))
            period = step * int(r.integers(150, 400))
        else:
            unit = str(r.choice(['s', 's', 'ms', 'ns']))
            step = float(r.choice([1., 2., 3.]))
            period = step * int(r.integers(120, 200))
        k = int(r.integers(0, 5))
        start = float([-90, 0, 180, 60, int(r.integers(-180, 180))][k])
        if abs(abs(start) - 90) < 8 and start != -90:
            start -= 20  # the interpolation is less precise at the ends
        box = None
        if r.random() < .5:
            w, s = float(r.uniform(-180, 90)), float(r.uniform(-80, 40))
            box = [w, s, w + float(r.uniform(20, 90)),
                   s + float(r.uniform(10, 40))]
        resolution = float(r.choice([60, 90, 130, 200]))
        if box and r.random() < .5:
            # the track in the box starts or ends at the equator
            edge = float(r.uniform(0, 1.6)) * resolution / 111
            k = float(r.uniform(15, 50))
            box[1], box[3] = (-edge, k) if r.random() < .5 else (-k, edge)
            if r.random() < .5:
                box[0], box[2] = -179.9, 179.9
        acts = []
        for _ in range(int(r.integers(1, 4))):
            acts.append(dict(
                first=None if r.random() < .5 else
                int(r.choice([0, 1, 946684800, -86400, 1700000000])),
                unit=str(r.choice(['s', 'ms', 'ns'])),
                last=None if r.random() < .4 else
                float(np.round(r.uniform(-.2, 2.5), 2)),
                number=int(r.choice([1, 1, 2, 5, 100, 0, -3])),
                calendar=int(r.choice([0, -1600000000, -1600000000, 86400,
                                       1 << 30])),
                jumps=[int(r.choice([-7200, -1, 3600, 1 << 28]))
                       for _ in range(int(r.integers(0, 4)))]))
        return dict(
            sched=sched(r), revs=revs, unit=unit, step=step, period=period,
            inc=float(r.choice([52, 66, 77.6, 98.5, 108])), start=start,
            lon=float(r.integers(-180, 180)),
            drift=int(r.integers(0, min(revs, 3) + 1)),
            given=bool(r.random() < .6), more=int(r.integers(2, 60)),
            height=float(r.choice([0, 500e3, 890e3])),
            resolution=resolution, box=box,
            swath=[float(r.choice([2, 5, 11])), float(r.choice([2, 3, 20])),
                   float(r.choice([30, 70, 61])), float(r.choice([2, 10, 9]))],
            acts=acts)

    def shrink(self, sc):
        if len(sc['acts']) > 1:
            for i in range(len(sc['acts'])):
                yield dict(sc, acts=sc['acts'][:i] + sc['acts'][i + 1:])
        if sc['box']:
            yield dict(sc, box=None)
        if sc['revs'] > 1:
            yield dict(sc, revs=sc['revs'] - 1,
                       drift=min(sc['drift'], sc['revs'] - 1))
        if sc['drift']:
            yield dict(sc, drift=0)
        yield from shrink_sched(sc)

    def build(self, sc):
        e = Ephemeris(sc)
        lon, lat, t = e.points()
        kw = {}
        if sc['given']:
            kw['cycle_duration'] = np.timedelta64(int(round(e.cycle * NS)),
                                                  'ns')
        return e, self.orbit.calculate_orbit(
            sc['height'], lon, lat, t, along_track_resolution=sc['resolution'],
            **kw)

    def execute(self, sc, out):
        if not hasattr(self, 'orbit'):
            self.prepare()
        with simrt.serial():
            e, alone = self.build(sc)
        with simrt.session(simrt.make_config(sc['sched'], races=False)):
            _, o = self.build(sc)
            calls = [self.calls(sc, o, a) for a in sc['acts']]
        out.nontrivial = True
        for k in ('longitude', 'latitude', 'time', 'x_al', 'pass_time'):
            if ops.canonical(getattr(o, k)) != \
                    ops.canonical(getattr(alone, k)):
                out.fail('schedule', f'{k} depends on the schedule')
        out.note(ops.canonical([o.longitude, o.latitude, o.time,
                                o.pass_time]))
        d = self.track(sc, e, o) or self.passes(sc, e, o, out)
        if d:
            out.fail('pass', d)
        for a, (clock, rows) in zip(sc['acts'], calls):
            if a['jumps']:
                out.tag('fault:clock jump', len(a['jumps']))
            d = self.history(sc, o, a, clock, rows)
            out.note(rows)
            if d:
                out.fail('iterate', d)

    def calls(self, sc, o, a):
        """iterate() while the calendar jumps."""
        simrt.lib.sim_calendar(a['calendar'])
        clock = 1600000000 + a['calendar']
        first = None if a['first'] is None else \
            np.datetime64(a['first'], 's').astype(f"M8[{a['unit']}]")
        kw = {}
        if a['last'] is not None:
            begin = np.datetime64(clock, 's') if first is None else first
            kw['last_date'] = begin + np.timedelta64(
                int(a['last'] * sc['period'] * sc['revs'] * 1000), 'ms')
        rows = []
        jumps = list(a['jumps'])
        for c, p, date in o.iterate(first, absolute_pass_number=a['number'],
                                    **kw):
            rows.append([int(c), int(p), str(date.astype('M8[ns]'))])
            if jumps:
                simrt.lib.sim_calendar(a['calendar'] + jumps.pop(0))
            if len(rows) > 100:
                break
        simrt.lib.sim_calendar(0)
        return clock, rows

    def history(self, sc, o, a, clock, rows):
        n = o.passes_per_cycle()
        date = np.datetime64(clock if a['first'] is None else a['first'],
                             's').astype('M8[ns]')
        last = date + (o.cycle_duration() if a['last'] is None else
                       np.timedelta64(int(a['last'] * sc['period'] *
                                          sc['revs'] * 1000), 'ms'))
        number = a['number']
        want = []
        # the clock of a run advances by less than a second
        while date <= last and len(want) <= 100:
            c, p = (number - 1) // n + 1, (number - 1) % n + 1
            want.append([c, p, str(date)])
            date = date + o.pass_duration(p)
            number += 1
        if want != rows:
            k = [x != y for x, y in zip(want, rows)]
            i = k.index(True) if any(k) else min(len(want), len(rows))
            return (f'{len(rows)} passes instead of {len(want)}; pass {i}: '
                    f'{rows[i:i + 1]} instead of {want[i:i + 1]}')
        return None

    def track(self, sc, e, o):
        """The orbit is the one of the ephemeris, from the first pass."""
        t = seconds(o.time)
        if t[0] != 0 or np.any(np.diff(t) <= 0) or t[-1] >= e.cycle:
            return f'times from {t[0]} to {t[-1]}, increasing: ' \
                f'{bool(np.all(np.diff(t) > 0))}'
        if np.any(np.diff(o.x_al) <= 0):
            return 'the distances do not increase'
        # one step of the ephemeris may be lost at each end
        slack = 3 * min(sc['step'], .5) + 2 * np.diff(t).max()
        if e.cycle - t[-1] > slack:
            return f'the orbit ends {e.cycle - t[-1]} s before its cycle'
        # the first point follows the southernmost one
        best = min(self.gap(sc, e, o, e.southernmost() + k * e.period, t)
                   for k in range(sc['revs']))
        if best > .02:
            return f'the track is {best} degrees away from the ephemeris'
        return None

    def gap(self, sc, e, o, start, t):
        """Distance to the ephemeris, the first point being chosen."""
        def far(u):
            lon, lat = e.position(start + u + t)
            return apart(lon, lat, o.longitude, o.latitude).max()
        lo, hi = 0., 2.5 * min(sc['step'], .5)
        for _ in range(40):
            a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
            if far(a) < far(b):
                hi = b
            else:
                lo = a
        return far(lo)

    def passes(self, sc, e, o, out):
        t = seconds(o.time)
        start = seconds(o.pass_time)
        n = o.passes_per_cycle()
        if n != 2 * sc['revs'] or len(start) != n:
            return f'{n} passes in {sc["revs"]} revolutions'
        if start[0] != 0 or np.any(np.diff(start) <= 0):
            return f'passes start at {start}'
        step = np.diff(t).max()
        want = np.arange(n) * e.period / 2
        slack = 2 * step + 3 * min(sc['step'], .5)
        if np.abs(start - want).max() > slack:
            return f'passes start at {start} instead of {want}'
        total = sum((o.pass_duration(k) for k in range(1, n + 1)),
                    np.timedelta64(0, 'ns'))
        if total != o.time[-1] + o.time[1] - o.time[0]:
            return f'the durations of the passes add up to {total}'
        for k in (0, n + 1):
            if attempt(o.pass_duration, k)[0] == 'ok':
                return f'pass {k} has a duration'
            if attempt(o.encode_absolute_pass_number, 3, k)[0] == 'ok':
                return f'pass {k} of a cycle has a number'
        d = self.summary(sc, o)
        if d:
            return d
        for c in (0, 1, 2, 33, 40000):
            for k in (1, n // 2, n):
                a = o.encode_absolute_pass_number(c, k)
                if o.decode_absolute_pass_number(a) != (c, k):
                    return f'pass {k} of cycle {c} is decoded as ' \
                        f'{o.decode_absolute_pass_number(a)}'
        seen, tracks = [], []
        box = None
        if sc['box']:
            w, s, x, y = sc['box']
            box = self.geodetic.Box(self.geodetic.Point(w, s),
                                    self.geodetic.Point(x, y))
        half = None
        for k in range(1, n + 1):
            p = self.orbit.calculate_pass(k, o)
            inside = (o.time >= o.pass_time[k - 1]) & \
                (o.time < o.pass_time[k] if k < n else True)
            if p is None:
                if inside.sum() >= 5:
                    return f'pass {k} of {inside.sum()} points is missing'
                seen.extend(np.flatnonzero(inside))
                continue
            at = np.searchsorted(o.time, p.time)
            seen.extend(at.tolist())
            d = self.part(o, p, at) or self.equator(sc, e, o, p)
            if d:
                return f'pass {k}: {d}'
            if box is not None:
                keep = box.covered_by(p.lon_nadir, p.lat_nadir)
                q = self.orbit.calculate_pass(k, o, bbox=box)
                if (q is None) != (not keep.any()):
                    return f'pass {k} in a box: {q}, {keep.sum()} points'
                if q is not None:
                    out.tag('cropped')
                    if not np.array_equal(q.time, p.time[keep]):
                        return f'pass {k} in a box has other points'
                    d = self.part(o, q, at[keep]) or \
                        self.equator(sc, e, o, q)
                    if d:
                        return f'pass {k} in a box: {d}'
                    # the direction of the track is the one of its points
                    if len(q) > 4 and q.x_al[-1] - q.x_al[0] < \
                            (len(q) - .5) * sc['resolution']:
                        half = q
            half = half or p
            tracks.append((p.lon_nadir, p.lat_nadir))
        if seen != list(range(len(t))):
            return 'the passes do not share the points of the cycle'
        d = self.crossovers(sc, tracks, out)
        return d or (self.swath(sc, half, out) if half else None)

    def crossovers(self, sc, tracks, out):
        """The crossings of two passes, and the points next to them."""
        r = ops.rng_of(int(sc['resolution']) + int(sc['lon'] + 180) * 1000)
        tracks = [t for t in tracks if len(t[0]) > 8]
        if len(tracks) < 2:
            return None
        top = (90 - abs(90 - sc['inc'])) - 8
        for _ in range(4):
            i, j = r.choice(len(tracks), 2, replace=False)
            if (i + j) % 2 == 0 and r.random() < .8:
                j = i - 1 if i else 1  # of the other direction
            a, b = (np.array([x[lo:][:n] for x in tracks[k]])
                    for k in (i, j)
                    for lo in [int(r.choice([0, 0, 5]))]
                    for n in [int(r.choice([400, 400, 30]))])
            if len(a[0]) < 4 or len(b[0]) < 4:
                continue
            # in the plane, the tracks are those of half orbits
            plane = bool(r.random() < .6) and all(map(half_orbit, (a, b)))
            true = crossings(a, b)
            if len(true) > 8 or any(t[2] < 1 for t in true):
                continue  # tracks that coincide
            limit = None if r.random() < .4 else \
                float(r.uniform(.1, 1.2) * sc['resolution'] * 1e3)
            if true and r.random() < .4:
                # between the distances of the two tracks
                limit = float(np.sqrt(np.prod([self.closest(
                    t, *true[0][:2], plane)[1] for t in (a, b)])))
            d = self.crossover(a, b, true, plane, limit, top, out)
            if d:
                return f'{d} (plane: {plane}, limit: {limit})'
        return None

    def crossover(self, a, b, true, plane, limit, top, out):
        kw = dict(predicate=limit, cartesian_plane=plane)
        got = attempt(lambda: self.geodetic.calculate_crossover_list(
            *a, *b, **kw))
        if got[0] == 'err':
            return f'crossovers: {got[1:]}'
        near = []
        for p, at in got[1]:
            near.append((p.lon, p.lat))
            if abs(p.lat) > top or abs(p.lat) < 1.5:
                continue
            off = max(aside(t, p.lon, p.lat) for t in (a, b))
            if off > .1:
                return f'a crossing at {p}, {off} degrees away from a track'
            for t, k in zip((a, b), at):
                d, far = self.closest(t, p.lon, p.lat, plane, k)
                if not plane and np.ptp(t[0]) > 180:
                    continue  # Boost loses neighbours at the date line
                if d:
                    return d
                if limit is not None and far > limit * 1.01 + 100:
                    return f'a point at {far} m is accepted'
            out.tag('crossover')
        for lon, lat, angle, ends in true:
            if abs(lat) > top or abs(lat) < 1.5 or angle < 15 or ends < .5:
                continue
            if min((float(apart(lon, lat, *t)) for t in near),
                   default=999.) < .2:
                continue
            far = max(self.closest(t, lon, lat, plane)[1] for t in (a, b))
            if not plane and limit and max(map(np.ptp, (a[0], b[0]))) > 180:
                continue
            if limit is None or far < limit * .99 - 12e3:
                return f'the crossing at {lon}, {lat} is missing'
            out.tag('crossover too far')
        if len(near) < 2:
            one = attempt(lambda: self.geodetic.calculate_crossover(
                *a, *b, **kw))
            # other crossings may have been dropped as being too far
            if limit is None or len(true) < 2:
                if one[0] == 'err':
                    return f'crossover: {one[1:]}'
                if (one[1] is None) != (not near) or near and (
                        (one[1][0].lon, one[1][0].lat) != near[0] or
                        tuple(one[1][1]) != tuple(got[1][0][1])):
                    return f'crossover {one[1]} instead of {got[1]}'
        return None

    def closest(self, t, lon, lat, plane, k=None):
        """How the point k is not the closest one, its distance (m)."""
        far = np.radians(apart(lon, lat, *t)) * 6371e3
        by = np.hypot((t[0] - lon + 180) % 360 - 180, t[1] - lat) \
            if plane else far
        i = int(by.argmin())
        if k is None:
            k = i
        elif by[k] > by[i] * 1.02 + 1e-9:
            return f'point {k} at {by[k]}, {i} is at {by[i]}', 0
        return None, float(far[k])

    def summary(self, sc, o):
        """What the orbit says of itself agrees with its points."""
        t = seconds(o.time)
        want = (t[-1] - t[0]) / sc['revs']
        got = float(seconds(o.orbit_duration()))
        if abs(got - want) > 2e-6 * (1 + want * 1e-6):
            return f'an orbit lasts {got} s instead of {want} s'
        want = (t[-1] - t[0]) / (len(t) - 1)
        got = float(seconds(o.delta_t()))
        if abs(got - want) > 2e-6:
            return f'{got} s between points instead of {want} s'
        d = np.asarray(o.curvilinear_distance())
        if d.shape != t.shape or d[0] != 0 or np.any(np.diff(d) <= 0):
            return 'the distances along the track do not increase'
        # the length of the chords of the track, within the flattening
        arc = np.radians(apart(o.longitude[:-1], o.latitude[:-1],
                               o.longitude[1:], o.latitude[1:])) * 6371e3
        bad = np.abs(np.diff(d) - arc) > .012 * arc + 1
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            return f'{np.diff(d)[i]} m between points {i} and {i + 1} ' \
                f'instead of about {arc[i]} m'
        return None

    def part(self, o, p, at):
        if len(p) != len(at):
            return f'{len(p)} points'
        for a, b in ((p.lon_nadir, o.longitude), (p.lat_nadir, o.latitude),
                     (p.time, o.time), (p.x_al, o.x_al)):
            if not np.array_equal(a, b[at]):
                return 'the points are not those of the orbit'
        return None

    def equator(self, sc, e, o, p):
        q = p.equator_coordinates
        lat = p.lat_nadir
        cross = np.flatnonzero((lat[:-1] * lat[1:] <= 0))
        if q.longitude != q.longitude:
            return 'the crossing of the equator is missing' if len(cross) \
                else None
        if len(cross) == 0:
            return f'crosses the equator at {q}, it does not'
        t = float(seconds(q.time))
        ts = seconds(p.time)
        i = cross[np.abs(ts[cross] - t).argmin()]
        step = ts[i + 1] - ts[i]
        if not ts[i] - .1 * step <= t <= ts[i + 1] + .1 * step:
            return f'equator at {t} s, crossed between {ts[i:i + 2]}'
        f = lat[i] / (lat[i] - lat[i + 1])
        d = (p.lon_nadir[i + 1] - p.lon_nadir[i] + 180) % 360 - 180
        x = p.lon_nadir[i] + f * d
        if abs((q.longitude - x + 180) % 360 - 180) > .1:
            return f'equator at longitude {q.longitude} instead of {x}'
        return None

    def swath(self, sc, p, out):
        if len(p) < 3:
            return None
        ac, al, half, gap = sc['swath']
        s = self.orbit.calculate_swath(
            p, across_track_resolution=ac, along_track_resolution=al,
            half_swath=half, half_gap=gap)
        n = int((half - gap) / ac) + 1
        if s.lon.shape != (len(p), 2 * n) or s.x_ac.shape != s.lon.shape:
            return f'swath of shape {s.lon.shape} {s.x_ac.shape}'
        d = np.radians(apart(p.lon_nadir[:, None], p.lat_nadir[:, None],
                             s.lon, s.lat)) * 6371e3
        if not np.allclose(d, np.abs(s.x_ac), rtol=.02, atol=50):
            k = np.abs(d - np.abs(s.x_ac)).argmax()
            return (f'a pixel of the swath is at {d.flat[k]} m of the nadir '
                    f'instead of {s.x_ac.flat[k]}')
        m = s.mask((gap * 1e3, half * 1e3))
        if np.any(np.isnan(m)):
            return 'the mask hides pixels of the swath'
        m = s.mask((gap * 1e3 + 1, half * 1e3))
        if not np.array_equal(np.isnan(m), np.abs(s.x_ac) < gap * 1e3 + 1):
            return 'the mask is not the one of the distances'
        if np.any(m[~np.isnan(m)] != 1):
            return 'the mask does not keep the pixels as they are'
        c = s.insert_central_pixel()
        for k in ('lon_nadir', 'lat_nadir', 'time', 'x_al'):
            if not np.array_equal(getattr(c, k), getattr(p, k)) or \
                    not np.array_equal(getattr(s, k), getattr(p, k)):
                return f'{k} of the swath is not the one of the pass'
        for a in (c, s):
            if repr(a.equator_coordinates) != repr(p.equator_coordinates):
                return 'the swath crosses the equator elsewhere'
        for a, b, mid in ((c.lon, s.lon, p.lon_nadir),
                          (c.lat, s.lat, p.lat_nadir),
                          (c.x_ac, s.x_ac, np.zeros(len(p)))):
            if not np.array_equal(a, np.c_[b[:, :n], mid, b[:, n:]]):
                return 'the central pixel is not the nadir'
        out.tag('swath')
        return None
