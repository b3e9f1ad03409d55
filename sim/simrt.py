"""Python side of the simulator: loads the real extension module under
libsim.so and drives simulated sessions."""
import contextlib
import ctypes
import gc
import importlib.util
import mmap
import os
import sys
import types

OUT = os.environ.get('SIM_BUILD') or os.path.join(
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'build')
REPO = os.environ.get('SIM_REPO', '/repo')
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'

U32, U64, I64 = ctypes.c_uint32, ctypes.c_uint64, ctypes.c_int64


class Config(ctypes.Structure):
    _fields_ = [('seed', U64), ('mode', U32), ('mean', U32), ('cores', U32),
                ('pct_depth', U32), ('pct_len', U32), ('fill', U32),
                ('thread_from', I64), ('thread_to', I64),
                ('thread_limit', I64), ('alloc_from', I64), ('alloc_to', I64),
                ('max_steps', U64), ('races', U32), ('only_code', U32)]


class Decision(ctypes.Structure):
    _fields_ = [('session', U32), ('uid', U32), ('nev', U64), ('next', U32),
                ('kind', U32), ('pc', U64)]


class Report(ctypes.Structure):
    _fields_ = [('kind', U32), ('flags', U32), ('pc1', U64), ('pc2', U64),
                ('uid1', U32), ('uid2', U32), ('size', U64), ('session', U64)]


class Shared(ctypes.Structure):
    _fields_ = [(n, U64) for n in
                ('hash', 'steps', 'vtime', 'switches', 'preemptions',
                 'threads', 'thread_fail', 'alloc_fail', 'timeouts', 'allocs',
                 'creations', 'status', 'maxlive')] + [
                     ('session', U32), ('ndec', U32), ('dec_lost', U32),
                     ('nrep', U32), ('rep', Report * 16),
                     ('dec', Decision * 65536)]


HEADER = Shared.rep.offset
COUNTERS = ('steps', 'vtime', 'switches', 'preemptions', 'threads',
            'thread_fail', 'alloc_fail', 'timeouts')
REPORTS = {1: 'data-race', 2: 'out-of-bounds', 3: 'use-after-free',
           4: 'wild-access', 5: 'bad-free'}

lib = None
shared = None
core = None
pyinterp = None
_module_file = os.path.join(OUT, 'core' + SUFFIX)


def module_range():
    lo = hi = 0
    with open('/proc/self/maps') as f:
        for line in f:
            if line.rstrip().endswith(_module_file):
                a, b = line.split()[0].split('-')
                a, b = int(a, 16), int(b, 16)
                lo = a if not lo else min(lo, a)
                hi = max(hi, b)
    return lo, hi


def start():
    """Loads everything.  Called once per server process."""
    global lib, shared, core
    sys.dont_write_bytecode = True
    lib = ctypes.PyDLL(None)
    try:
        lib.sim_begin
    except AttributeError:
        raise SystemExit('libsim.so is not preloaded')
    lib.sim_shared_size.restype = U64
    lib.sim_shared.restype = ctypes.c_void_p
    lib.sim_max_alloc.argtypes = [U64]
    lib.sim_calendar.argtypes = [ctypes.c_int64]
    lib.sim_set_shared.argtypes = [ctypes.c_void_p]
    lib.sim_module.argtypes = [U64, U64]
    lib.sim_set_replay.argtypes = [ctypes.c_void_p, U32]
    lib.sim_live_blocks.restype = U64
    lib.sim_total_blocks.restype = U64
    lib.sim_begin.argtypes = [ctypes.POINTER(Config)]
    assert lib.sim_shared_size() == ctypes.sizeof(Shared), 'layout'
    import numpy  # noqa: F401  (before the module)
    spec = importlib.util.spec_from_file_location('pyinterp.core',
                                                  _module_file)
    mod = importlib.util.module_from_spec(spec)
    pkg = types.ModuleType('pyinterp')
    pkg.__path__ = [os.path.join(REPO, 'src', 'pyinterp')]
    had = sys.modules.get('pyinterp')
    sys.modules['pyinterp'] = pkg
    sys.modules['pyinterp.core'] = mod
    spec.loader.exec_module(mod)
    core = mod
    # submodules of the extension can be imported by name
    for name in dir(mod):
        sub = getattr(mod, name)
        if isinstance(sub, types.ModuleType):
            sys.modules['pyinterp.core.' + name] = sub
            for n2 in dir(sub):
                s2 = getattr(sub, n2)
                if isinstance(s2, types.ModuleType):
                    sys.modules['pyinterp.core.' + name + '.' + n2] = s2
    if had is None:
        del sys.modules['pyinterp']
    load_package()
    lo, hi = module_range()
    lib.sim_module(lo, hi)
    new_shared()
    # The C library takes shortcuts (shared_ptr counters that are not atomic)
    # until a first thread exists: leave that state for good.
    import threading
    t = threading.Thread(target=lambda: None)
    t.start()
    t.join()
    # small buffers numpy keeps for itself: fill them with a known pattern
    for n in range(1, 1025):
        keep = [numpy.full(n, 0x5B, 'u1') for _ in range(8)]
        del keep
    number_futures()
    gc.collect()
    gc.freeze()
    gc.disable()


def fresh_memory():
    """Called in the process of a scenario: whatever it allocates lies at
    addresses that do not depend on what its parent did before."""
    import numpy
    lib.sim_epoch()
    gc.collect()  # empties the free lists of the interpreter
    for n in range(1, 1025):  # and the small blocks numpy keeps
        _kept.extend([numpy.empty(n, 'u1') for _ in range(8)])


_kept = []


def number_futures():
    """Futures are hashed by their age, not by their address: the order of
    the sets of concurrent.futures is part of the schedule."""
    import concurrent.futures
    import itertools
    ages = itertools.count(1)

    def age(self):
        try:
            return self._sim_age
        except AttributeError:
            self._sim_age = next(ages)
            return self._sim_age

    concurrent.futures.Future.__hash__ = age
    acquire = concurrent.futures._base._AcquireFutures

    def init(self, futures):
        self.futures = sorted(futures, key=hash)

    acquire.__init__ = init


def load_package():
    """Imports the Python package of the repository on top of the extension
    module; dask and xarray, which are not installed, are models."""
    global pyinterp
    stubs = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs')
    for name in ('dask', 'xarray'):
        if importlib.util.find_spec(name) is None:
            sys.path.append(stubs)
            break
    version = types.ModuleType('pyinterp.version')
    version.release = lambda: '0'
    version.date = lambda: '0'
    sys.modules['pyinterp.version'] = version
    sys.path.insert(0, os.path.join(REPO, 'src'))
    import pyinterp as package
    import concurrent.futures.thread  # noqa: F401
    import pyinterp.backends.xarray  # noqa: F401
    import pyinterp.fill  # noqa: F401
    import pyinterp.geohash  # noqa: F401
    import pyinterp.period  # noqa: F401
    package.core = core
    # pickle finds the classes by name
    pyinterp = package
    sys.path.pop(0)


def new_shared():
    """Memory that outlives a child that crashes."""
    global shared
    mem = mmap.mmap(-1, ctypes.sizeof(Shared))
    shared = Shared.from_buffer(mem)
    shared._mem = mem
    lib.sim_set_shared(ctypes.addressof(shared))


def reset_shared():
    ctypes.memset(ctypes.addressof(shared), 0, HEADER)


_replay_keep = None


def set_replay(decisions):
    """decisions: list of [session, uid, nev, next]; None: none."""
    global _replay_keep
    n = len(decisions)
    arr = (Decision * max(n, 1))()
    for d, (s, u, e, x) in zip(arr, decisions):
        d.session, d.uid, d.nev, d.next = s, u, e, x
    _replay_keep = arr
    lib.sim_set_replay(ctypes.addressof(arr), n)


def decisions():
    return [[d.session, d.uid, d.nev, d.next]
            for d in shared.dec[:shared.ndec]]


def decision_pcs():
    return [d.pc for d in shared.dec[:shared.ndec]]


def reports():
    return [dict(kind=REPORTS[r.kind], flags=r.flags, pc1=r.pc1, pc2=r.pc2,
                 uid1=r.uid1, uid2=r.uid2, session=r.session)
            for r in shared.rep[:shared.nrep]]


DEFAULT_STEPS = 30_000_000
forced_mode = None  # replay: 2


def make_config(sched=None, fault=None, races=True, fill=0x5B,
                max_steps=DEFAULT_STEPS):
    sched = sched or {}
    fault = fault or {}
    c = Config()
    c.seed = sched.get('seed', 1)
    c.mode = sched.get('mode', 3)
    if forced_mode is not None:
        c.mode = forced_mode
    c.mean = sched.get('mean', 50)
    c.cores = sched.get('cores', 4)
    c.pct_depth = sched.get('depth', 3)
    c.pct_len = sched.get('len', 2000)
    c.fill = fill
    c.thread_from, c.thread_to = fault.get('threads', (-1, -1))
    c.thread_limit = fault.get('thread_limit', 0)
    c.alloc_from, c.alloc_to = fault.get('allocs', (-1, -1))
    c.max_steps = max_steps
    c.races = 1 if races else 0
    c.only_code = 1
    return c


@contextlib.contextmanager
def session(config, check=True):
    lib.sim_check(1 if check else 0)
    lib.sim_begin(ctypes.byref(config))
    try:
        yield
    finally:
        lib.sim_end()
        lib.sim_check(0)


def serial(cores=1):
    """A session without preemption nor fault: the sequential reference."""
    return session(make_config(dict(mode=3, cores=cores, seed=0), races=False))


@contextlib.contextmanager
def refusing(allocs, sched=None):
    """A serial session where these allocations of the extension fail."""
    cfg = make_config(sched or dict(mode=3, cores=2, seed=0),
                      dict(allocs=allocs), races=False)
    with session(cfg):
        lib.sim_alloc_window(1)
        try:
            yield
        finally:
            lib.sim_alloc_window(0)


def environment():
    env = dict(os.environ)
    env.update(LD_PRELOAD=os.path.join(OUT, 'libsim.so'),
               PYTHONMALLOC='malloc', PYTHONHASHSEED='0',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', LC_ALL='C', TZ='UTC',
               NPY_DISABLE_CPU_FEATURES='')
    env.pop('NPY_DISABLE_CPU_FEATURES')
    return env
