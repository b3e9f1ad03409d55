"""Figures and descriptions of the checks."""
REAL = ('pyinterp extension module (all of core/module, core/lib, '
        'core/include) compiled from /repo, libstdc++, CPython, numpy')
STUB = ('thread creation and switching, mutexes, condition variables, '
        'futexes, clocks, number of processors, operator new/malloc: libsim')
ASSUME = ['the instrumented build (clang -O1) behaves like the released one',
          'memory is sequentially consistent in the simulator; accesses that '
          'are not ordered are reported as races instead']


def entry(rule, quick=(4000, 60), thorough=(200000, 780), real=REAL,
          stub=STUB, assumptions=ASSUME):
    return dict(rule=rule, quick=dict(runs=quick[0], seconds=quick[1]),
                thorough=dict(runs=thorough[0], seconds=thorough[1]),
                real=real, stub=stub, assumptions=assumptions)


INTERLEAVING = ('a run counts when at least one thread was preempted; two '
                'runs are the same when the sequence of context switches '
                '(thread, event number, next thread) and the results agree')
HISTORY = ('a run counts when its history holds a crash, a restart, an '
           'injected fault or a merge; two runs are the same when the actions '
           'and the final observations agree')

META = {
    'P01': entry(INTERLEAVING),
    'P02': entry(INTERLEAVING),
    'P03': entry(INTERLEAVING),
    'P04': entry('a run counts when a thread creation was refused or a thread '
                 'was preempted; same switches and results: same run'),
    'P05': entry(INTERLEAVING),
    'P06': entry(HISTORY, quick=(6000, 40)),
    'P07': entry('a run counts when a state was damaged; same type, same '
                 'damages and same outcomes: same run', quick=(8000, 40)),
    'P08': entry(HISTORY, quick=(6000, 40), stub=STUB + '; dask: arrays cut '
                 'along their first axis on a simulated cluster'),
    'P09': entry(HISTORY, quick=(6000, 40)),
    'P10': entry('a run counts when a thread was preempted or the tree was '
                 'restored; same history, same neighbours and same switches: '
                 'same run', quick=(6000, 40)),
    'P11': entry('a run counts when an allocation was refused; same call, '
                 'same allocation, same outcome and same switches: same run',
                 quick=(8000, 45)),
    'P14': entry('a run counts when a fault was injected or several objects '
                 'were alive; same calls and outcomes: same run',
                 quick=(4000, 45)),
    'P12': entry('a run counts when a call was refused; same calls, same '
                 'errors and same final state: same run',
                 quick=(6000, 40)),
    'P13': entry('a run counts when the call has several threads or a fault '
                 'was injected; same call, same switches, same result: same '
                 'run', quick=(6000, 40)),
    'P15': entry('a run counts when an owner was destroyed; same history and '
                 'values: same run', quick=(6000, 40)),
    'P16': entry('a run counts when an answer was compared; same calls, same '
                 'answers and same switches: same run', quick=(4000, 45)),
    'P17': entry(HISTORY, quick=(6000, 40)),
    'P21': entry('a run counts when the passes of an orbit were compared; '
                 'same orbit, same switches and same dates: same run',
                 quick=(6000, 40)),
    'P22': entry('a run counts when a fault was injected, the grid was '
                 'changed, copied or restored, or a call has several threads; '
                 'same history, same answers and same switches: same run',
                 quick=(6000, 45)),
    'P18': entry('a run counts when an element was damaged or a thread was '
                 'preempted; same call, same answers and same switches: same '
                 'run', quick=(8000, 40)),
}
