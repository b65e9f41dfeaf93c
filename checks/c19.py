"""C19: the locks of the file handler."""
import builtins
import io
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vlib import files, fresh, kit, sched
from vlib.core import REPO, VERIF, Facet, Result, check, check_eq

ID = 'C19'
TECHNIQUE = 'schedule-controlled property testing: generated programs of threads over locks with injected failures of the system lock, under a deterministic scheduler; real forked processes with a lost-update oracle; generated lock names against a grammar'
RULE = ('Facet "sections": 2 - 3 threads over 1 - 3 locks of one or two paths, sections that end normally, by exceptions, with a failing flock at the entrance or exit, under a generated schedule; the oracle counts who is inside, and at the end '
        'every lock must be free. "together": sections that do not exclude each other must be able to overlap. "handler": threads write through handlers whose file notices overlapping calls. "processes": real processes and threads '
        'increment a counter. "names": texts of lock types. Non-trivial: a preemption happened (sections, handler), always (together, processes), more than one lock name or a refusal (names).')
ASSUMPTIONS = ['a thread is inside of one section at a time', 'a lock without "thread" is used by one thread at a time', 'processes are forked while no lock is held']

TYPES = [None, 'thread', 'file', 'thread+file', 'file+thread', ' thread + file ', 'file + thread', ' file']


def parts(lock_type):
    return set() if lock_type is None else {x.strip() for x in lock_type.split('+')}


def sections_strategy():
    @st.composite
    def case(draw):
        locks = draw(st.lists(st.tuples(st.integers(0, 1), kit.weighted((1, st.sampled_from(TYPES)), (3, st.sampled_from(TYPES[3:7])))).map(list), min_size=1, max_size=3))
        count = draw(st.integers(2, 3))
        program = st.lists(st.tuples(st.integers(0, 2), kit.weighted((5, st.just('plain')), (2, st.just('raise')), (2, st.just('acquire')), (1, st.just('release')))).map(list), min_size=1, max_size=4)
        return {'locks': locks, 'threads': draw(st.lists(program, min_size=count, max_size=count)), 'schedule': draw(sched.schedules(max_gap=300))}
    return case()


def key():
    return sched.here()[1]


class World:
    """polog with the scheduler's threads and flock()."""
    def __init__(self):
        self.armed = {}
        self.fcntl = files.FakeFcntl(self.fails('acquire'), self.fails('release'))

    def fails(self, kind):
        def predicate(fd):
            if self.armed.get(key()) == kind:
                del self.armed[key()]
                return True
            return False
        return predicate

    def __enter__(self):
        self.scratch = files.Scratch()
        self.scratch.__enter__()
        self.world = sched.world()
        self.saved = sys.modules['fcntl']
        sys.modules['fcntl'] = self.fcntl
        fresh.load(substitutes=self.world)
        self.DoubleLock = fresh.module('polog.handlers.file.locks.double_lock').DoubleLock
        return self

    def __exit__(self, *args):
        sys.modules['fcntl'] = self.saved
        fresh.abandon()
        self.scratch.__exit__(*args)

    def start(self, bodies, schedule):
        errors = []

        def guarded(body, number):
            try:
                body(number)
            except BaseException as e:
                errors.append(e)

        def main():
            threads = [self.world['threading'].Thread(target=guarded, args=(body, number), daemon=True) for number, body in enumerate(bodies)]
            for x in threads:
                x.start()
            for x in threads:
                x.join()
        _, scheduler = sched.run(schedule, main)
        if errors:
            raise errors[0]
        return scheduler


def run_sections(case):
    types = [parts(x[1]) for x in case['locks']]
    names = [f'file{x[0]}.log' for x in case['locks']]
    # Without "thread" several threads of one lock do not exclude each other: such a lock belongs to one thread.
    programs = []
    owner = {}
    for number, program in enumerate(case['threads']):
        steps = []
        for index, kind in program:
            index %= len(types)
            if types[index] == {'file'} and owner.setdefault(index, number) != number:
                continue
            if kind in ('acquire', 'release') and 'file' not in types[index]:
                kind = 'raise'
            if kind == 'release' and sum(name == names[index] and 'file' in x for name, x in zip(names, types)) > 1:
                kind = 'acquire'  # the lock of the system stays taken after that
            steps.append((index, kind))
        programs.append(steps)

    inside = []
    problems = []
    faults = 0

    with World() as world:
        locks = [world.DoubleLock(name, x[1]) for name, x in zip(names, case['locks'])]

        def enter(index):
            for other in inside:
                if other == index and 'thread' in types[index]:
                    problems.append(f'two threads are inside of the lock {index}')
                if other != index and names[other] == names[index] and 'file' in types[index] & types[other]:
                    problems.append(f'two holders of the file lock of {names[index]}: {other} and {index}')
            inside.append(index)

        def section(index, kind):
            nonlocal faults
            entered = False
            try:
                if kind in ('acquire', 'release'):
                    world.armed[key()] = kind
                with locks[index]:
                    entered = True
                    enter(index)
                    for x in range(3):
                        sched.point()
                    inside.remove(index)
                    if kind == 'raise':
                        raise KeyError('body')
                if kind == 'acquire':
                    problems.append('a section was entered although the file lock was not taken')
                if kind == 'raise':
                    problems.append('the exception of the body disappeared')
            except KeyError:
                if kind != 'raise':
                    raise
            except OSError:
                faults += 1
                if kind not in ('acquire', 'release'):
                    raise
                check(entered == (kind == 'release'), 'the failure of the system lock is reported at a wrong moment')
            world.armed.pop(key(), None)

        def body(number):
            for index, kind in programs[number]:
                section(index, kind)

        scheduler = world.start([body] * len(programs), case['schedule'])
        check(not problems, 'exclusion', problems)

        # Everything is free: nobody waits now.
        def again(number):
            for index in range(len(locks)):
                section(index, 'plain')
                section(index, 'plain')
        world.start([again], {'gaps': []})
        check(not problems, 'exclusion', problems)
    return Result(scheduler.preemptions, ['fault' if faults else 'no fault', f'{len(locks)} locks'])


# Sections that may overlap.

def together_strategy():
    lock = st.tuples(st.sampled_from([None, 'file0.log', 'file1.log', 'file0', 'file0.txt', 'file0.log.txt', 'FILE0.log', 'dir/file0.log', '.file0.log', 'file0.log ']), st.sampled_from(TYPES)).map(list)
    return st.fixed_dictionaries({'locks': st.lists(lock, min_size=2, max_size=2), 'same': st.booleans(), 'schedule': sched.schedules(max_gap=100)})


def run_together(case):
    (name, type1), (name2, type2) = case['locks']
    first, second = parts(type1), parts(type2)
    same = case['same']
    if same and first:
        # One lock with something switched on: there is nothing that must overlap, unless it has no file.
        same = first == {'file'} and name is None
    if not same and name == name2 and name is not None and 'file' in first & second:
        name2 = 'file2.log'
    with World() as world:
        os.mkdir('dir')
        locks = [world.DoubleLock(name, type1), world.DoubleLock(name2, type2)]
        if same:
            locks[1] = locks[0]
        inside = [False, False]

        def body(number):
            with locks[number]:
                inside[number] = True
                scheduler, _ = sched.here()
                # A deadlock here means that the locks exclude each other.
                scheduler.block(lambda: all(inside))
        world.start([body, body], case['schedule'])
    return Result(True, ['same lock' if same else 'two locks'])


# Handlers.

class SpyFile:
    """A file that notices two calls at the same time. `place` is shared by all files of one path."""
    def __init__(self, file, place):
        self.file = file
        self.place = place

    def spy(self, name, *args):
        if self.place['inside']:
            self.place['problems'].append(f"{name} during {self.place['inside']}")
        self.place['inside'].append(name)
        for x in range(3):
            sched.point()
        try:
            return getattr(self.file, name)(*args)
        finally:
            sched.point()
            self.place['inside'].remove(name)

    def write(self, text):
        return self.spy('write', text)

    def flush(self):
        return self.spy('flush')

    def close(self):
        return self.file.close()

    def read(self, *args):
        return self.file.read(*args)


def handler_strategy():
    return st.fixed_dictionaries({
        'target': st.sampled_from(['object', 'path', 'path']),
        'lock': st.sampled_from(['thread', 'thread+file', ' file+thread']),
        'handlers': st.integers(1, 2),
        'threads': st.lists(st.integers(1, 3), min_size=2, max_size=3),
        'fail': st.lists(st.integers(0, 8), max_size=2),
        'schedule': sched.schedules(max_gap=400),
    })


def run_handler(case):
    place = {'inside': [], 'problems': []}
    two = case['handlers'] == 2 and case['target'] == 'path' and 'file' in case['lock']
    real_open = builtins.open
    opened = []

    def spy_open(path, mode='r', *args, **kwargs):
        file = real_open(path, mode, *args, **kwargs)
        if path == 'file.log' and 'a' in mode:
            opened.append(file)
            return SpyFile(file, place)
        return file

    with World() as world:
        writer = fresh.module('polog.handlers.file.writer').file_writer
        item = fresh.module('polog.core.log_item').LogItem
        buffer = io.StringIO()
        alts = []
        builtins.open = spy_open
        try:
            target = SpyFile(buffer, place) if case['target'] == 'object' else 'file.log'
            handlers = [writer(target, lock_type=case['lock'], formatter=lambda log: log['message'] + '\n', alt=lambda log: alts.append(log['message'])) for x in range(2 if two else 1)]
        finally:
            builtins.open = real_open
        texts = []

        def body(number):
            for step in range(case['threads'][number]):
                text = f'<{number}:{step}>'
                texts.append(text)
                log = item()
                log.set_data({'message': text})
                if len(texts) in case['fail'] and case['target'] == 'path' and 'file' in case['lock']:
                    world.armed[key()] = 'acquire'
                handlers[number % len(handlers)](log)
                world.armed.pop(key(), None)
        scheduler = world.start([body] * len(case['threads']), case['schedule'])
        if case['target'] == 'path':
            for file in opened:
                file.close()
            with open('file.log') as file:
                lines = file.read().split()
        else:
            lines = buffer.getvalue().split()
    check(not place['problems'], 'calls of the file overlap', place['problems'])
    check_eq(sorted(lines + alts), sorted(texts), 'lines and logs passed to alt')
    return Result(scheduler.preemptions, ['two handlers' if two else 'one handler', 'fault' if alts else 'no fault'])


# Processes.

def processes_strategy():
    return st.fixed_dictionaries({
        'processes': st.integers(2, 4),
        'threads': st.integers(1, 3),
        'locks': st.integers(1, 2),
        'type': st.sampled_from(['thread+file', 'file+thread', 'file']),
        'when': st.sampled_from(['before', 'after']),
        'used': st.booleans(),
        'parent': st.booleans(),
        'raise': st.integers(2, 5),
        'steps': st.integers(40, 80),
    })


def run_processes(case):
    if case['type'] == 'file':
        case = dict(case, threads=1)
    with files.Scratch() as scratch:
        program = subprocess.Popen([sys.executable, '-B', os.path.join(VERIF, 'programs', 'lock_program.py'), json.dumps(case), REPO], cwd=scratch.path, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   start_new_session=True)
        try:
            out, errors = program.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            check(False, 'the processes do not end: a lock is never freed')
        finally:
            try:
                os.killpg(program.pid, 9)
            except ProcessLookupError:
                pass
            program.wait()
            program.stdout.close()
            program.stderr.close()
        check_eq(program.returncode, 0, f'exit code of the program, {errors.decode(errors="replace")[-1500:]}')
        report = json.loads(out)
        check_eq(report['codes'], [0] * case['processes'], f'exit codes of processes, {errors.decode(errors="replace")[-500:]}')
        check_eq(report['counter'], (case['processes'] + case['parent']) * case['threads'] * case['steps'], 'the counter: sections of processes overlapped')
    return Result(True, [case['type'], case['when']])


# Names of locks.

def names_strategy():
    word = st.sampled_from(['file', 'thread', 'file', 'thread', 'File', 'threads', 'process', 'file thread', 'none', 'fil', 'thread-file', 'filethread'])
    spaced = st.tuples(st.sampled_from(['', ' ', '  ', '\t']), word, st.sampled_from(['', ' ', '\n'])).map(''.join)
    text = st.lists(spaced, min_size=1, max_size=3).map('+'.join)
    other = st.sampled_from([['text', ''], ['text', '   '], ['none'], ['int', 1], ['int', 0], ['list', ['file']], ['list', []], ['bool', True], ['bool', False], ['bytes', 'file']])
    return st.fixed_dictionaries({'type': kit.weighted((6, text.map(lambda x: ['text', x])), (1, other)), 'path': st.booleans()})


def run_names(case):
    kind = case['type'][0]
    value = None if kind == 'none' else case['type'][1]
    if kind == 'bytes':
        value = value.encode()
    words = [x.strip() for x in value.split('+')] if kind == 'text' else []
    good = kind == 'none' or (kind == 'text' and bool(words) and all(x in ('file', 'thread') for x in words) and len(set(words)) == len(words))
    with World() as world:
        writer = fresh.module('polog.handlers.file.writer').file_writer
        try:
            handler = writer('file.log' if case['path'] else io.StringIO(), lock_type=value)
        except ValueError:
            check(not good, 'a good type of lock is refused', value)
            return Result(True, ['refused'])
        check(good, 'a malformed type of lock is accepted', value)
    return Result(len(words) > 1, ['accepted'])


FACETS = [
    Facet('sections', sections_strategy, run_sections, quick=4000),
    Facet('together', together_strategy, run_together, quick=1500),
    Facet('handler', handler_strategy, run_handler, quick=2000),
    Facet('processes', processes_strategy, run_processes, quick=64),
    Facet('names', names_strategy, run_names, quick=1500),
]
