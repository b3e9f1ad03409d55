"""Runs scenarios in forked children of a pristine process."""
import hashlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

import numpy as np

import simrt

CPU_LIMIT = 60  # seconds of processor time per scenario


def derive(*parts):
    h = hashlib.sha256('/'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], 'little')


def rng(*parts):
    return np.random.default_rng(derive(*parts))


class Outcome:
    """What a scenario showed."""

    def __init__(self):
        self.viol = []
        self.tags = {}
        self.digest = hashlib.sha256()
        self.nontrivial = False

    def fail(self, cls, msg):
        self.viol.append([cls, str(msg)[:600]])

    def note(self, data):
        self.digest.update(data if isinstance(data, bytes) else
                           repr(data).encode())

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def json(self):
        s = simrt.shared
        self.note(s.hash)
        return dict(viol=self.viol, tags=self.tags,
                    nontrivial=bool(self.nontrivial),
                    digest=self.digest.hexdigest()[:24])


def attempt(fn, *args):
    """('ok', value) or ('err', type name, message)."""
    try:
        return ('ok', fn(*args))
    except Exception as e:  # noqa: BLE001
        e.__traceback__ = None
        return ('err', type(e).__name__, str(e))


def crash_class(status):
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU or sig == signal.SIGKILL:
            return 'hang', f'no end after {CPU_LIMIT} s of processor time'
        return f'crash-{signal.Signals(sig).name}', \
            f'process killed by {signal.Signals(sig).name}'
    code = os.WEXITSTATUS(status)
    if code == 97:
        return 'deadlock', 'every thread waits'
    if code == 98:
        return 'no-progress', 'step limit reached'
    if code == 99:
        return 'harness', 'arena'
    return f'exit-{code}', f'process left with status {code}'


def where(e):
    """The error and the step of the scenario that met it."""
    frames = [f for f in traceback.extract_tb(e.__traceback__)
              if '/sim/' in f.filename]
    at = f' in "{frames[-1].line}"' if frames else ''
    return f'{type(e).__name__}: {str(e)[:400]}{at}'


def run_child(prop, sc, decisions=None, want_dec=False):
    """Runs the scenario in a forked child.  Returns a dictionary."""
    simrt.reset_shared()
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 2))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            nul = os.open('/dev/null', os.O_WRONLY)
            err = os.open(os.environ.get('SIM_CHILD_LOG', '/dev/null'),
                          os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(nul, 1)
            os.dup2(err, 2)
            if decisions is not None:
                simrt.forced_mode = 2
                simrt.set_replay(decisions)
            simrt.fresh_memory()
            out = Outcome()
            try:
                prop.execute(sc, out)
            except (OSError, MemoryError, AssertionError):
                raise
            except Exception as e:  # noqa: BLE001
                # a call that has to work raised an error
                out.nontrivial = True
                out.fail('exception', where(e))
            data = json.dumps(out.json()).encode()
            while data:
                n = os.write(wfd, data)
                data = data[n:]
        except BaseException:  # noqa: BLE001
            data = json.dumps(dict(error=traceback.format_exc()[-3000:]))
            os.write(wfd, data.encode())
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    end = time.monotonic() + 600
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        ok, _, _ = select.select([rfd], [], [], left)
        if not ok:
            continue
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    raw = b''.join(chunks)
    s = simrt.shared
    counters = {k: int(getattr(s, k)) for k in simrt.COUNTERS}
    result = dict(viol=[], tags={}, nontrivial=False, digest='')
    if status == 0 and raw:
        result = json.loads(raw)
    elif raw and b'"error"' in raw:
        result['error'] = json.loads(raw)['error']
    else:
        cls, msg = crash_class(status)
        # what the monitors had seen before the process ended comes first:
        # it is the cause, and it does not depend on what the memory held
        result['viol'] = [[r['kind'], f'{msg}, after: {r["kind"]} at '
                           f'+0x{r["pc1"]:x} and +0x{r["pc2"]:x}']
                          for r in simrt.reports()] + [[cls, msg]]
        result['nontrivial'] = True
        result['digest'] = f'{cls}/{int(s.hash)}/{int(s.steps)}'
    result['counters'] = counters
    result['hash'] = int(s.hash)
    result['dec_lost'] = int(s.dec_lost)
    if want_dec:
        result['decisions'] = simrt.decisions()
    return result


# ---------------------------------------------------------------------------
def relevant(prop, res):
    """The violations of the property in a result."""
    out = []
    for cls, msg in res.get('viol', ()):
        if prop.concerns(cls):
            out.append((cls, msg))
    return out


class Prop:
    """Base of the properties."""
    id = ''
    races = False
    quick_runs = 1500
    thorough_runs = 30000
    quick_seconds = 60
    thorough_seconds = 780
    components = ()

    def concerns(self, cls):
        return True

    def generate(self, r, index):
        raise NotImplementedError

    def execute(self, sc, out):
        raise NotImplementedError

    def shrink(self, sc):
        return ()

    def known(self, sc, cls, msg):
        """Identifier of the known finding this violation matches."""
        return None


def sched(r):
    """A random scheduling policy."""
    k = r.integers(0, 10)
    s = dict(seed=int(r.integers(1 << 40)), cores=int(r.integers(1, 10)))
    if r.random() < .02:
        s['cores'] = 0  # the system does not know
    if k < 6:
        s.update(mode=0, mean=int(r.choice([2, 8, 30, 120, 500, 3000])))
    else:
        s.update(mode=1, depth=int(r.integers(1, 9)),
                 len=int(r.choice([200, 2000, 20000, 200000])))
    return s


def shrink_sched(sc):
    s = sc.get('sched')
    if s and s.get('mode') == 0 and s['mean'] < 3000:
        yield dict(sc, sched=dict(s, mean=s['mean'] * 4))


def confirm(prop, sc, cls, decisions=None, tries=1):
    for _ in range(tries):
        res = run_child(prop, sc, decisions)
        if any(c == cls for c, _ in relevant(prop, res)):
            return res
    return None


def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        some = False
        i = 0
        while i < len(items) and time.monotonic() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                some = True
                n = max(n - 1, 2)
            else:
                i += size
        if not some:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(prop, sc, cls, seconds=60):
    """Returns (scenario, decisions or None, result)."""
    deadline = time.monotonic() + seconds
    best = sc
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for cand in prop.shrink(best):
            if time.monotonic() > deadline:
                break
            seeds = [cand.get('sched', {}).get('seed')] + list(range(1, 6))
            for seed in seeds if 'sched' in cand else [None]:
                c2 = cand
                if seed is not None:
                    c2 = dict(cand, sched=dict(cand['sched'], seed=seed))
                if confirm(prop, c2, cls):
                    best = c2
                    progress = True
                    break
            if progress:
                break
    res = run_child(prop, best, want_dec=True)
    decs = res.get('decisions') or []
    if res.get('dec_lost'):
        return best, None, res
    if not confirm(prop, best, cls, decs):
        return best, None, res
    deadline = max(deadline, time.monotonic() + 10)
    decs = ddmin(decs, lambda d: bool(confirm(prop, best, cls, d)), deadline)
    # the number of forced switches that are not the default choice is small
    res = run_child(prop, best, decs)
    return best, decs, res


# ---------------------------------------------------------------------------
def load_prop(pid):
    import props
    return props.PROPS[pid]()


def server(pid, seed, tier, worker, workers, runs, seconds, first):
    """Runs scenarios worker, worker + workers, ... and reports on stdout."""
    simrt.start()
    prop = load_prop(pid)
    prop.tier = tier
    prop.prepare() if hasattr(prop, 'prepare') else None
    out = sys.stdout
    start = time.monotonic()
    seen = set()
    total = dict(runs=0, nontrivial=0, checked_twice=0, tags={},
                 counters={k: 0 for k in simrt.COUNTERS}, errors=[])
    samples = []
    index = first + worker
    found = None
    unstable = []
    known = {}
    stop = os.environ.get('SIM_STOP')
    while index < runs and time.monotonic() - start < seconds:
        if stop and os.path.exists(stop):
            break
        r = rng(seed, pid, index)
        sc = prop.generate(r, index)
        sc['index'] = index
        res = run_child(prop, sc)
        index += workers
        total['runs'] += 1
        for k, v in res['counters'].items():
            total['counters'][k] += v
        for k, v in res['tags'].items():
            total['tags'][k] = total['tags'].get(k, 0) + v
        if 'error' in res:
            total['errors'].append([sc, res['error']])
            if len(total['errors']) > 3:
                break
            continue
        if res['nontrivial']:
            seen.add(res['digest'][:16])
        if len(samples) < 3 and res['nontrivial']:
            samples.append(dict(scenario=sc, digest=res['digest'],
                                counters=res['counters']))
        if (total['runs'] % 16) == 1:
            again = run_child(prop, sc)
            total['checked_twice'] += 1
            if (again['digest'], again['hash']) != (res['digest'],
                                                    res['hash']):
                total['errors'].append([sc, 'two runs differ: %s %s' % (
                    res['digest'], again['digest'])])
                break
        bad = None
        for cls, msg in relevant(prop, res):
            k = prop.known(sc, cls, msg)
            if k:
                known.setdefault(k, [0, msg])
                known[k][0] += 1
            elif bad is None:
                bad = (cls, msg)
        if bad and not confirm(prop, sc, bad[0]):
            # what happens depends on memory the simulator does not own
            # (undefined behaviour): look for a run that repeats
            unstable.append([sc, *bad])
            if len(unstable) > 20:
                break
            continue
        if bad:
            found = [sc, *bad]
            if stop:
                open(stop, 'w').close()
            break
    total.update(distinct=sorted(seen), samples=samples, found=found,
                 unstable=unstable, known=known, wall=time.monotonic() - start,
                 next=index)
    out.write(json.dumps(total) + '\n')
    out.flush()


def server_minimise(pid, path):
    """Reads [scenario, class], writes the minimised replay."""
    simrt.start()
    prop = load_prop(pid)
    prop.tier = 'quick'
    sc, cls = json.load(open(path))
    first, second = (run_child(prop, sc) for _ in range(2))
    classes = [[c for c, _ in relevant(prop, r)] for r in (first, second)]
    if any(cls not in c for c in classes):
        # another class that repeats, if there is one
        both = [c for c in classes[0] if c in classes[1]]
        if not both:
            print(json.dumps(dict(ok=False, first=first, second=second)))
            return
        cls = both[0]
    best, decs, res = minimise(prop, sc, cls)
    msgs = [m for c, m in relevant(prop, res) if c == cls]
    print(json.dumps(dict(ok=True, scenario=best, decisions=decs, cls=cls,
                          message=msgs[0] if msgs else '',
                          digest=res['digest'], hash=res['hash'])))


def server_replay(path):
    simrt.start()
    rep = json.load(open(path))
    prop = load_prop(rep['property'])
    prop.tier = 'quick'
    res = run_child(prop, rep['scenario'], rep.get('decisions'))
    hit = [m for c, m in relevant(prop, res) if c == rep['class']]
    print(json.dumps(dict(hit=hit, any=relevant(prop, res), res=res)))


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'serve':
        server(a[2], int(a[3]), a[4], int(a[5]), int(a[6]), int(a[7]),
               float(a[8]), int(a[9]))
    elif a[1] == 'minimise':
        server_minimise(a[2], a[3])
    elif a[1] == 'replay':
        server_replay(a[2])
