"""Entry point of the checks.

    run.py check P01 [--tier quick|thorough]
    run.py replay FILE
    run.py build
"""
import argparse
import json
import os
import pathlib
import re
import subprocess
import sys
import time

import build

HERE = pathlib.Path(__file__).resolve().parent
ROOT = HERE.parent
PY = sys.executable
PREFIX = []


def environment(out):
    env = dict(os.environ)
    env.update(LD_PRELOAD=str(out / 'libsim.so'), PYTHONMALLOC='malloc',
               PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C',
               TZ='UTC')
    return env


def fixed_addresses():
    """Command prefix that switches the randomisation of addresses off."""
    try:
        if subprocess.run(['setarch', '-R', 'true'],
                          stderr=subprocess.DEVNULL).returncode == 0:
            return ['setarch', '-R']
    except OSError:
        pass
    return []


def call(out, *args, timeout=None):
    return subprocess.run(PREFIX + [PY, str(HERE / 'harness.py'), *map(str, args)],
                          env=environment(out), stdout=subprocess.PIPE,
                          timeout=timeout, text=True)


def last_json(text):
    lines = [x for x in text.splitlines() if x.startswith('{')]
    return json.loads(lines[-1]) if lines else None


def locate(out, message):
    """Names the code addresses of a message."""
    so = next(out.glob('core.cpython*.so'), None)

    def name(m):
        if m.group(1) == '0' or so is None:
            return m.group(0)
        try:
            text = subprocess.run(
                ['addr2line', '-Cfpe', str(so), '0x' + m.group(1)],
                stdout=subprocess.PIPE, text=True, timeout=60).stdout.strip()
        except (OSError, subprocess.SubprocessError):
            return m.group(0)
        return f'{m.group(0)} ({text[-160:]})'

    return re.sub(r'\+0x([0-9a-f]+)', name, message)


def search(out, pid, seed, tier, jobs, runs, seconds, first):
    """One search by several processes: what each of them reports."""
    procs = []
    stop = out / f'stop-{pid}-{os.getpid()}'
    stop.unlink(missing_ok=True)
    env = environment(out)
    env['SIM_STOP'] = str(stop)
    for w in range(jobs):
        procs.append(subprocess.Popen(
            PREFIX + [PY, str(HERE / 'harness.py'), 'serve', pid, str(seed), tier,
             str(w), str(jobs), str(runs), str(seconds), str(first)],
            env=env, stdout=subprocess.PIPE, text=True))
    results = []
    failed = []
    for w, p in enumerate(procs):
        text, _ = p.communicate()
        r = last_json(text)
        if p.returncode or r is None:
            failed.append((w, p.returncode))
        else:
            results.append(r)
    stop.unlink(missing_ok=True)
    if failed:
        print(f'{pid}: server processes failed: {failed}', file=sys.stderr)
        return None
    return results


def check(pid, tier, seed, jobs, seconds=None, runs=None):
    started = time.time()
    out = build.build()
    built = time.time() - started
    import meta
    info = meta.META[pid]
    runs = runs or info[tier]['runs']
    seconds = seconds or info[tier]['seconds']
    results, found, violations, unreproduced = [], [], [], []
    first, left = 0, seconds
    # what did not repeat is set aside and the search goes on
    for _ in range(6):
        begun = time.time()
        more = search(out, pid, seed, tier, jobs, runs, left, first)
        if more is None:
            return 2
        results += more
        found = sorted([r['found'] for r in more if r['found']],
                       key=lambda f: f[0]['index'])
        found += sorted([f for r in more for f in r['unstable']],
                        key=lambda f: f[0]['index'])[:4]
        first = max(r['next'] for r in more)
        left -= time.time() - begun
        for sc, cls, msg in found[:4]:
            rep = shrink_and_save(out, pid, sc, cls, msg)
            if rep:
                violations.append(rep)
                break
            unreproduced.append([sc['index'], cls, msg])
            print(f'{pid}: a violation did not reproduce and is not reported: '
                  f'{sc["index"]} {cls} {msg}', file=sys.stderr)
        if violations or not found or left < 2 or first >= runs:
            break
    wall = time.time() - started
    errors = [e for r in results for e in r['errors']]
    for sc, e in errors[:3]:
        print(f'{pid}: harness error\n{json.dumps(sc)}\n{e}', file=sys.stderr)
    tot = dict(runs=sum(r['runs'] for r in results),
               twice=sum(r['checked_twice'] for r in results))
    tags, counters, known = {}, {}, {}
    distinct = set()
    for r in results:
        distinct.update(r['distinct'])
        for k, v in r['tags'].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, (n, msg) in r['known'].items():
            known.setdefault(k, [0, msg])
            known[k][0] += n
    rc = 0
    for rep in violations:
        print(f'{pid}: {rep["class"]}: {rep["message"]}')
        print(f'VIOLATION property={pid} replay={rep["path"]}')
        rc = 1
    if not rc and len(errors) * 20 > tot['runs']:
        print(f'{pid}: too many harness errors', file=sys.stderr)
        rc = 2
    listed = json.loads((ROOT / 'known_findings.json').read_text()) \
        if (ROOT / 'known_findings.json').exists() else {}
    for f in listed.get('findings', []):
        if f['property'] == pid:
            n = known.get(f['id'], [0])[0]
            print(f'KNOWN-FINDING: property={pid} {f["id"]}: {f["what"]} '
                  f'(met {n} times in this run)')
    searched = sum(r['wall'] for r in results) / jobs
    samples = [s for r in results for s in r['samples']][:6]
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=tot['runs'], distinct_nontrivial=len(distinct),
            rule=info['rule'], samples=samples,
            runs_per_hour=round(tot['runs'] / max(searched, .001) * 3600),
            simulated_seconds=counters.get('vtime', 0) / 1e9,
            simulated_events=counters.get('steps', 0),
            context_switches=counters.get('switches', 0),
            preemptions=counters.get('preemptions', 0),
            threads_created=counters.get('threads', 0),
            faults=dict(
                {k: v for k, v in tags.items() if k.startswith('fault:')},
                thread_creation_refused=counters.get('thread_fail', 0),
                allocation_refused=counters.get('alloc_fail', 0),
                timed_wait_expired_early=counters.get('timeouts', 0)),
            reached={k: v for k, v in sorted(tags.items())
                     if not k.startswith('fault:')},
            determinism=dict(scenarios_run_twice=tot['twice'],
                             differences=0 if not errors else len(errors)),
            real=info['real'], stub=info['stub'],
            build_seconds=round(built, 1),
            unreproduced=unreproduced,
            known_findings={k: v[0] for k, v in known.items()}),
        wall_s=round(wall, 1), assumptions=info['assumptions'],
        violations=[dict(replay=v['path'], what=v['message'])
                    for v in violations])
    ev = ROOT / 'evidence' / f'{pid}.json'
    ev.parent.mkdir(exist_ok=True)
    ev.write_text(json.dumps(evidence, indent=1) + '\n')
    print(f'{pid} {tier}: {tot["runs"]} runs, {len(distinct)} distinct, '
          f'{tot["twice"]} run twice, build {built:.0f} s, search '
          f'{searched:.0f} s, exit {rc}')
    return rc


def shrink_and_save(out, pid, sc, cls, msg):
    d = ROOT / 'replays'
    d.mkdir(exist_ok=True)
    stem = f'{pid}-{cls}-{sc["index"]}'.replace('/', '_').replace(':', '_')
    todo = d / (stem + '.todo.json')
    todo.write_text(json.dumps([sc, cls]))
    p = call(out, 'minimise', pid, todo)
    todo.unlink()
    r = last_json(p.stdout)
    if not r or not r['ok']:
        print(f'{pid}: not reproduced in a fresh process: {r}',
              file=sys.stderr)
        return None
    path = d / (stem + '.json')
    # the minimised execution or, when it is not one that repeats exactly (a
    # thread that outlives its stack, for one), the one that was found
    for sc2, decs, exact in ((r['scenario'], r['decisions'], True),
                             (r['scenario'], None, False), (sc, None, False)):
        c2, msg2 = r['cls'], r['message'] or msg
        for _ in range(3):
            rep = {'property': pid, 'class': c2,
                   'message': locate(out, msg2), 'scenario': sc2,
                   'decisions': decs, 'digest': r['digest'],
                   'schedule_hash': r['hash'],
                   'replay': f'python3-vt {HERE}/run.py replay {path}',
                   'format': 'decisions: [session, thread, event number of '
                             'the thread, thread that runs next]; null: the '
                             'seed in scenario.sched decides'}
            path.write_text(json.dumps(rep, indent=1) + '\n')
            again = last_json(call(out, 'replay', path).stdout)
            if not again or not again['any']:
                break
            same = again['res']['digest'] == rep['digest'] or \
                c2.startswith('crash')
            if again['hit'] and (same or not exact):
                rep.update(digest=again['res']['digest'],
                           schedule_hash=again['res']['hash'],
                           message=locate(out, again['hit'][0]))
                path.write_text(json.dumps(rep, indent=1) + '\n')
                rep['path'] = str(path)
                return rep
            if exact:
                break
            c2, msg2 = again['any'][0]
    print(f'{pid}: the replay file does not reproduce: {again}',
          file=sys.stderr)
    return None


def replay(path):
    out = build.build()
    rep = json.load(open(path))
    r = last_json(call(out, 'replay', os.path.abspath(path)).stdout)
    if r and r['hit']:
        print(f'{rep["class"]}: {r["hit"][0]}')
        same = r['res']['digest'] == rep['digest']
        print(f'execution identical to the recorded one: {same}')
        print(f'VIOLATION property={rep["property"]} replay={path}')
        return 1
    print('no violation')
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('pid')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--seed', type=int,
                   default=int(os.environ.get('VERIF_SEED', '1')))
    c.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    c.add_argument('--seconds', type=float)
    c.add_argument('--runs', type=int)
    r = sub.add_parser('replay')
    r.add_argument('path')
    sub.add_parser('build')
    a = ap.parse_args()
    PREFIX.extend(fixed_addresses())
    if a.cmd == 'build':
        build.build(True)
        return 0
    if a.cmd == 'replay':
        return replay(a.path)
    return check(a.pid, a.tier, a.seed, a.jobs, a.seconds, a.runs)


if __name__ == '__main__':
    sys.exit(main())
