"""Builds the simulator and the instrumented extension module from /repo.

Every translation unit is compiled again when its text, the text of a file of
/repo it includes, or the command line changed (contents are compared, not
dates).  The output directory, /verif/build, is not tracked by git.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import pathlib
import shutil
import subprocess
import sys
import sysconfig
import time

HERE = pathlib.Path(__file__).resolve().parent
ROOT = HERE.parent
REPO = pathlib.Path(os.environ.get('SIM_REPO', '/repo'))
OUT = pathlib.Path(os.environ.get('SIM_BUILD', str(ROOT / 'build')))
CORE = REPO / 'src' / 'pyinterp' / 'core'
PYINC = '/usr/include/python3.12'
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'

COMMON = ['-std=c++17', '-fPIC', '-fvisibility=hidden', '-w',
          '-DEIGEN_USE_BLAS', '-DHAVE_IEC559', '-DNDEBUG',
          '-fno-omit-frame-pointer']
CLANG = ['clang++', '-O1', '-gline-tables-only', '-Wno-c++11-narrowing',
         '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']
GCC = ['g++', '-O1', '-g1', '-Wno-narrowing', '-fsanitize=thread',
       '--param=tsan-instrument-func-entry-exit=0']


def sha(data):
    return hashlib.sha256(data).hexdigest()


def file_sha(path):
    try:
        with open(path, 'rb') as f:
            return sha(f.read())
    except OSError:
        return ''


def sources():
    result = []
    for sub in ('module', 'module/geohash', 'lib'):
        d = CORE / sub
        result += sorted(d.rglob('*.cpp') if sub == 'lib' else d.glob('*.cpp'))
    return result


def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        with open(log, 'wb') as f:
            f.write(' '.join(map(str, cmd)).encode() + b'\n' + p.stdout)
    return p.returncode


def parse_deps(path):
    text = path.read_text().replace('\\\n', ' ')
    names = text.split(':', 1)[1].split()
    keep = (str(REPO) + '/', str(HERE) + '/')
    return sorted({os.path.normpath(n) for n in names
                   if os.path.normpath(n).startswith(keep)})


def includes():
    return [f'-I{OUT}/inc', '-I/usr/include/eigen3', f'-I{CORE}/include',
            '-isystem', PYINC]


def compile_one(src, ign):
    key = str(src.relative_to(REPO)).replace('/', '_')
    obj = OUT / 'obj' / (key + '.o')
    meta = OUT / 'obj' / (key + '.json')
    clang = CLANG + [f'-fsanitize-ignorelist={ign}'] + COMMON + includes()
    flags = sha(' '.join(clang).encode() + file_sha(ign).encode() +
                file_sha(HERE / 'pyb11.py').encode())
    try:
        m = json.loads(meta.read_text())
        if (m['flags'] == flags and obj.exists() and
                all(file_sha(p) == h for p, h in m['deps'].items())):
            return (key, False, None, 0.0)
    except (OSError, ValueError, KeyError):
        pass
    meta.unlink(missing_ok=True)
    dep = OUT / 'obj' / (key + '.d')
    log = OUT / 'obj' / (key + '.log')
    tmp = OUT / 'obj' / (key + '.tmp.o')
    start = time.time()
    tail = ['-MD', '-MF', str(dep), '-c', str(src), '-o', str(tmp)]
    rc = run(clang + tail, log)
    if rc:
        rc = run(GCC + COMMON + includes() + tail, log)
    if rc:
        return (key, True, log.read_text(errors='replace')[-4000:], 0.0)
    deps = {p: file_sha(p) for p in parse_deps(dep)}
    os.replace(tmp, obj)
    meta.write_text(json.dumps({'flags': flags, 'deps': deps}))
    return (key, True, None, time.time() - start)


def build(verbose=False):
    """Returns the directory with libsim.so and the extension module."""
    start = time.time()
    (OUT / 'obj').mkdir(parents=True, exist_ok=True)
    with open(OUT / '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(verbose, start)


def _build(verbose, start):
    ign = OUT / 'ignore.txt'
    text = '[thread]\nsrc:*/pybind11/*\n'
    if not ign.exists() or ign.read_text() != text:
        ign.write_text(text)
    stamp = OUT / 'inc' / '.stamp'
    want = file_sha(HERE / 'pyb11.py')
    if not stamp.exists() or stamp.read_text() != want:
        shutil.rmtree(OUT / 'inc', ignore_errors=True)
        (OUT / 'inc').mkdir(parents=True)
        subprocess.run([sys.executable, str(HERE / 'pyb11.py'),
                        str(OUT / 'inc')], check=True)
        stamp.write_text(want)

    srcs = sources()
    # the long ones first
    heavy = ('geodetic.cpp', 'rtree.cpp', 'bicubic.cpp', 'fill.cpp',
             'spline.cpp', 'polygon.cpp')
    srcs.sort(key=lambda s: (s.name not in heavy, -s.stat().st_size))
    jobs = min(os.cpu_count() or 4, 12)
    errors = []
    rebuilt = 0
    with cf.ThreadPoolExecutor(jobs + 1) as pool:
        simf = pool.submit(build_libsim)
        for key, done, err, wall in pool.map(
                lambda s: compile_one(s, ign), srcs):
            rebuilt += done
            if err:
                errors.append((key, err))
            elif verbose and done:
                print(f'  {wall:6.1f} s {key}', flush=True)
        simf.result()
    if errors:
        for key, err in errors:
            sys.stderr.write(f'build: {key}\n{err}\n')
        raise SystemExit(2)
    objs = [OUT / 'obj' / (str(s.relative_to(REPO)).replace('/', '_') + '.o')
            for s in srcs]
    so = OUT / ('core' + SUFFIX)
    link = sha(''.join(file_sha(o) for o in objs).encode())
    lf = OUT / 'link.txt'
    if not so.exists() or not lf.exists() or lf.read_text() != link:
        lf.unlink(missing_ok=True)
        tmp = OUT / 'core.tmp.so'
        subprocess.run(['g++', '-shared', '-o', str(tmp)] +
                       [str(o) for o in objs] + ['-lopenblas'], check=True)
        os.replace(tmp, so)
        lf.write_text(link)
    if verbose:
        print(f'build: {rebuilt} of {len(srcs)} units compiled in '
              f'{time.time() - start:.1f} s', flush=True)
    return OUT


def build_libsim():
    src = HERE / 'libsim.cpp'
    so = OUT / 'libsim.so'
    cmd = ['g++', '-std=c++17', '-O2', '-g1', '-fPIC', '-shared', '-Wall',
           '-Wextra', '-fno-strict-aliasing', str(src)]
    want = sha(' '.join(cmd).encode() + file_sha(src).encode())
    st = OUT / 'libsim.txt'
    if so.exists() and st.exists() and st.read_text() == want:
        return
    tmp = OUT / 'libsim.tmp.so'
    subprocess.run(cmd + ['-o', str(tmp), '-ldl', '-lpthread'], check=True)
    os.replace(tmp, so)
    st.write_text(want)


if __name__ == '__main__':
    build(True)
