"""C04: programs that end in different ways, each in its own process."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from hypothesis import strategies as st

from vlib import events, kit
from vlib.core import REPO, VERIF, Facet, HarnessError, Result, check, check_eq

ID = 'C04'
TECHNIQUE = 'property-based testing: generated programs run in processes of their own, against a model of what must be flushed'
RULE = ('A case is a program: pool and queue size, time limit, handlers (fast, slow, raising, exiting, logging, stuck), its events, logs of '
        'atexit functions registered before and after polog is imported and used, a non-daemon thread that logs after the main one ended, log objects that are kept until the end, and '
        'the way it ends. It runs in a process of its own; handlers note what they got in a file. Checked: each accepted log is noted once by '
        'each handler by the time the process has ended; it ends with the right code; with a stuck handler it ends within the limit plus a '
        'constant. Non-trivial: there are worker threads and slow or stuck handlers, or logs of atexit functions.')
ASSUMPTIONS = ['work left in the queue takes at most a tenth of the time limit (or there is no limit); "a small constant" is 30 s here',
               'handlers that log themselves are not combined with a limited queue']
HERE = os.path.dirname(os.path.abspath(__file__))
SLACK = 30

kinds = st.sampled_from(events.KINDS[:-1])


def strategy():
    return st.fixed_dictionaries({
        'pool': st.integers(0, 3),
        'queue': st.sampled_from([0, 0, 0, 1, 3]),
        'limit': st.sampled_from([0, 30, 60.0, 'inf', 10 ** 30, None]),
        'sigint': st.sampled_from(['default', 'default', 'ignored', 'own']),
        'stuck_times': st.just(0),
        'reload': st.just(False),
        'time_quant': st.sampled_from([None, None, 0.001, 0.1]),
        'handlers': st.lists(st.sampled_from(['ok', 'ok', 'raise', 'exit', 'logging']), min_size=1, max_size=3),
        'delay': st.sampled_from([0, 1, 5, 40, 100]),
        'events': st.lists(kinds, max_size=12),
        'early': st.lists(kinds, max_size=2),
        'middle': st.lists(kinds, max_size=2),
        'late': st.lists(kinds, max_size=2),
        'thread': st.lists(kinds, max_size=3),
        'end': st.sampled_from(['end', 'exit', 'error', 'decorated', 'interrupt']),
        'stuck': st.none(),
        'kept': st.lists(st.sampled_from(['plain', 'level', 'cycle', 'attribute']), max_size=3),
        'repeat': kit.weighted((5, st.just(1)), (1, st.sampled_from([20, 100, 400]))),
    }).map(trim)


def trim(case):
    if case['limit'] is None and case['delay'] > 5:
        case['delay'] = 1  # the default limit is one second: leave nothing to handle for long
    if case['limit'] is None:
        case['events'] = case['events'][:4]
        case['thread'] = []
    if case['repeat'] > 1:
        # A backlog of thousands of logs, which is handled fast.
        case['delay'] = 0
        case['handlers'] = case['handlers'][:2]
        case['limit'] = 0 if case['limit'] is None else case['limit']
    if not case['events'] and not case['thread']:
        case['events'] = ['manual']  # the property is about programs that logged before their end
    if case['queue'] and case['pool']:
        case['handlers'] = ['ok' if x == 'logging' else x for x in case['handlers']]
    return case


def stuck_strategy():
    return st.fixed_dictionaries({
        'pool': st.integers(1, 3),
        'queue': st.just(0),
        'limit': st.sampled_from([0.1, 0.3, 1, 1.5]),
        'sigint': st.sampled_from(['default', 'default', 'ignored', 'own']),
        'stuck_times': st.sampled_from([1, 1, 2, 5]),
        'reload': st.booleans(),
        'time_quant': st.sampled_from([None, 0.001, 0.1]),
        'handlers': st.lists(st.sampled_from(['ok', 'raise', 'exit']), min_size=1, max_size=2),
        'delay': st.sampled_from([0, 1]),
        'events': st.lists(kinds, max_size=8),
        'early': st.lists(kinds, max_size=2),
        'middle': st.lists(kinds, max_size=2),
        'late': st.lists(kinds, max_size=1),
        'thread': st.lists(kinds, max_size=2),
        'end': st.sampled_from(['end', 'exit', 'error', 'decorated', 'interrupt']),
        'stuck': st.sampled_from(['sleep', 'event', 'sleeps']),
        'kept': st.just([]),
        'repeat': st.just(1),
    }).map(trim_stuck)


def trim_stuck(case):
    if case['reload']:
        # While the reload waits for the stuck handler, a log waits for the reload: only the exit functions that come after the one of polog log.
        case['events'], case['thread'], case['late'] = [], [], []
        case['end'] = 'end' if case['end'] == 'decorated' else case['end']
    return case


_cache = []


def cache():
    """Compiled modules of this shard only: made from the current tree."""
    if not _cache:
        _cache.append(tempfile.mkdtemp(prefix='verif-cache-'))
    return _cache[0]


def execute(case):
    directory = tempfile.mkdtemp(prefix='verif-exit-')
    try:
        out = os.path.join(directory, 'out')
        env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': cache()}
        command = [sys.executable, '-B', os.path.join(VERIF, 'programs', 'exit_program.py'), json.dumps(case), out, REPO]
        limit = 90 if not case['stuck'] else case['limit'] + SLACK
        started = time.time()
        hung = False
        process = subprocess.Popen(command, cwd=directory, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try:
            _, errors = process.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            hung = True
            process.kill()
            _, errors = process.communicate()
        try:
            with open(out) as file:
                notes = [json.loads(x) for x in file]
        except FileNotFoundError:
            notes = []
        if not any(x[0] == 'end' for x in notes) and not hung:
            text = errors.decode(errors='replace')
            if f'{REPO}/polog' in text:
                check(False, 'the program failed inside of the code under test', text[-1500:])
            raise HarnessError(f'the program did not get to its end: {text[-1500:]}')
        return process.returncode, notes, hung, time.time() - started, errors.decode(errors='replace')
    finally:
        shutil.rmtree(directory, ignore_errors=True)


CODES = {'end': 0, 'exit': 3, 'error': 1, 'decorated': 3, 'interrupt': -2}


def run(case):
    code, notes, hung, seconds, errors = execute(case)
    check(not hung, f'the program did not end in {seconds:.0f} s')
    check(code == CODES[case['end']] or (case['end'] == 'interrupt' and code in (1, 130)), 'exit code', code, errors[-500:])
    accepted = [f'{name} {index}' for name, part in (('main', case['events'] * case['repeat']), ('early', case['early']), ('middle', case['middle']), ('late', case['late']), ('thread', case['thread']), ('kept', case['kept'])) for index in range(len(part))]
    logged = [x[1] for x in notes if x[0] == 'logged']
    check_eq(sorted(logged), sorted(accepted), f'logging calls of the program that returned ({errors[-500:]})')
    check_eq(sorted(x[1] for x in notes if x[0] == 'left'), ['early', 'late', 'middle'], 'exit functions of the program that ended')
    if 'logging' in case['handlers']:
        accepted += [f'inner {x}' for x in accepted for handler in case['handlers'] if handler == 'logging']
    if not case['stuck']:
        for index, behaviour in enumerate(case['handlers']):
            got = [x[2] for x in notes if x[0] == 'handled' and x[1] == index]
            check_eq(sorted(got), sorted(accepted), f'logs handled by handler {index} ({behaviour})')
    else:
        for index, behaviour in enumerate(case['handlers']):
            got = [x[2] for x in notes if x[0] == 'handled' and x[1] == index]
            check((len(got) == len(set(got))) and set(got) <= set(accepted), 'a log is handled twice or was not logged', got)
    queued = case['pool'] and (case['events'] or case['thread'])
    return Result(case['stuck'] or (queued and case['delay']) or case['early'] or case['middle'] or case['late'] or case['kept'],
                  [case['end'], f'pool {case["pool"]}', 'stuck' if case['stuck'] else f'limit {case["limit"]}'])


FACETS = [
    Facet('flush', strategy, run, quick=200, thorough=3000),
    Facet('stuck', stuck_strategy, run, quick=48, thorough=600),
]
