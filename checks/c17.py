"""C17: the file handler, its rotation, threads, processes and failures."""
import builtins
import io
import json
import os
import shutil
import subprocess
import sys

from hypothesis import strategies as st

from vlib import clock, files, fresh, kit, sched
from vlib.core import REPO, VERIF, Facet, HarnessError, Result, check, check_eq

ID = 'C17'
TECHNIQUE = 'model-based and schedule-controlled property testing: generated histories of writes, rotations and injected faults; threads under a deterministic scheduler; several real processes; oracle: every line whole, exactly once, nothing overwritten'
RULE = ('Four facets. "sequential": histories of writes (1 byte to 30 KB, any encoding width, default and own format) through one or two handlers of one path, with rotation limits, existing content and archives, a clock that '
        'stands still, missing directories, handlers created again, failing moves, failing reopening and blocked directories; the files are compared after every write. "threads": 2 - 3 threads (and two handlers under '
        'thread+file) under a generated schedule with a simulated flock. "texts": a formatter that returns any text or fails, over paths and file objects; the content is the concatenation of the texts, what cannot be written goes to alt. "processes": 2 - 3 real processes with threads writing through one path with file locks. '
        'Non-trivial: at least one rotation happened, and for threads at least one preemption.')
ASSUMPTIONS = ['log and archives are in one file system', 'with forced_flush=False the lines are compared after the file is closed',
               'two handlers of one path (and processes) use file locks when they work in parallel']

size = kit.weighted((5, st.integers(0, 40)), (2, st.integers(40, 400)), (1, st.sampled_from([8150, 8192, 9000, 20000])))
RULES = ['1 b', '20 b', '60 bytes', '200 b', '1 kb', '100 b, 5 kb', '3 mb; 50 b', '9 kb']
DESTINATIONS = [None, 'archive', 'deep/er/archive', 'spaces in name', '.', 'ABSOLUTE', '']


def sequential_strategy():
    operation = kit.weighted(
        (10, st.tuples(st.just('write'), st.integers(0, 1), size, st.sampled_from(['a', 'a', 'я', '😀'])).map(list)),
        (1, st.sampled_from([0.000001, 1.0, 90000.0]).map(lambda x: ['advance', x])),
        (1, st.sampled_from(['move', 'open', 'blocked']).map(lambda x: ['fault', x])),
        (1, st.integers(0, 1).map(lambda x: ['restart', x])),
    )
    return st.fixed_dictionaries({
        'rule': kit.weighted((8, st.sampled_from(RULES)), (1, st.none())),
        'destination': st.sampled_from(DESTINATIONS),
        'existing': st.sampled_from([None, '', 'old line\n', 'old line without end', 'old line\n' * 30]),
        'lock': st.sampled_from([None, 'thread', 'file', 'thread+file', ' file + thread ']),
        'path': st.sampled_from(['file.log', 'ABSOLUTE', 'sub/dir/file', 'имя файла.txt']),
        'format': st.sampled_from(['own', 'own', 'default', 'separator']),
        'flush': kit.weighted((5, st.just(True)), (1, st.just(False))),
        'handlers': st.integers(1, 2),
        'history': st.lists(operation, min_size=2, max_size=14),
    })


def make_log(polog, text, number):
    item = fresh.module('polog.core.log_item').LogItem()
    item.set_data({'message': text, 'level': number % 5, 'auto': False, 'success': bool(number % 2), 'time': clock.real_datetime.datetime(2020, 1, 1, 10, 0, number % 60), 'extra': number})
    return item


class Faults:
    """Makes the next move or the next opening of the log file fail, as a full disk or a lack of descriptors would."""
    def __init__(self, root, path):
        self.root = root
        self.path = os.path.abspath(path)
        self.armed = None
        self.fired = 0

    def fails(self, kind, path):
        if self.armed != kind or not isinstance(path, (str, os.PathLike)):
            return False
        if os.path.abspath(path) != self.path:
            return False
        self.armed = None
        self.fired += 1
        return True

    def __enter__(self):
        self.saved = [(os, 'rename', os.rename), (os, 'replace', os.replace), (shutil, 'move', shutil.move), (builtins, 'open', builtins.open)]
        for module, name, real in self.saved:
            if name == 'open':
                def wrapper(path, *args, _real=real, **kwargs):
                    if self.fails('open', path):
                        raise OSError(24, 'Too many open files')
                    return _real(path, *args, **kwargs)
            else:
                def wrapper(path, *args, _real=real, **kwargs):
                    if self.fails('move', path):
                        raise PermissionError(13, 'Permission denied')
                    return _real(path, *args, **kwargs)
            setattr(module, name, wrapper)
        return self

    def __exit__(self, *args):
        for module, name, real in self.saved:
            setattr(module, name, real)


class Sequential:
    def __init__(self, case, scratch, polog, ticker):
        self.case = case
        self.scratch = scratch
        self.polog = polog
        self.ticker = ticker
        self.writer = fresh.module('polog.handlers.file.writer').file_writer
        self.path = os.path.join(scratch.path, 'absolute.log') if case['path'] == 'ABSOLUTE' else case['path']
        self.key = os.path.relpath(os.path.abspath(self.path), scratch.path)
        if os.path.dirname(self.path):
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.initial = []
        if case['existing'] is not None:
            with open(self.path, 'w', encoding='utf-8') as file:
                file.write(case['existing'])
            self.initial.append(case['existing'].encode())
        self.destination = case['destination']
        if self.destination == 'ABSOLUTE':
            self.destination = os.path.join(scratch.path, 'absolute archive')
        self.alts = []
        self.expected = {}
        self.count = 0
        self.rotations = 0
        self.twin = None
        self.handlers = [self.make() for x in range(case['handlers'])]
        self.files = scratch.snapshot()

    def make(self, target=None):
        kwargs = {'alt': self.alts.append}
        if self.case['format'] == 'own':
            kwargs['formatter'] = lambda log: log['message'] + '\n'
        elif self.case['format'] == 'separator':
            kwargs['separator'] = ' конец\r\n'
        if target is not None:
            return self.writer(target, **kwargs)
        if self.case['rule'] is not None:
            kwargs['rotation'] = self.case['rule'] if self.destination is None else f"{self.case['rule']} >>{self.destination and ' ' + self.destination}"
        return self.writer(self.path, forced_flush=self.case['flush'], lock_type=self.case['lock'], **kwargs)

    def block(self):
        """The directory of archives cannot be created: a file has its name."""
        name = {None: 'logs', '': 'logs'}.get(self.destination, self.destination)
        first = os.path.join(self.scratch.path, name.split('/')[0]) if not os.path.isabs(name) else name
        if not os.path.exists(first):
            with open(first, 'w') as file:
                file.write('blocked')
            self.initial.append(b'blocked')
            self.files = self.scratch.snapshot()

    def write(self, index, length, kind):
        self.count += 1
        text = files.make_line(0, self.count, length, kind)
        log = make_log(self.polog, text, self.count)
        buffer = io.StringIO()
        # What the line must be: the same handler over a buffer.
        self.make(buffer)(log)
        line = buffer.getvalue().encode('utf-8')
        check(text.encode() in line, 'the line contains the message', line[:200])
        self.expected[(0, self.count)] = line
        self.handlers[index % len(self.handlers)](log)
        self.faults.armed = None
        check(not self.alts, 'the log was passed to alt instead of the file', text[:100])
        if self.case['flush']:
            self.compare(line)

    def compare(self, line):
        old, new = self.files, self.scratch.snapshot()
        self.files = new
        matched = {}
        for path, content in old.items():
            if path == self.key:
                continue
            check(path in new, 'an archive disappeared', path)
            check(new[path].startswith(content), 'an archive was overwritten', path)
            matched[path] = len(content)
        main = old.get(self.key)
        if main is not None:
            if self.key in new and new[self.key].startswith(main) and (main or len(new) == len(old)):
                matched[self.key] = len(main)
            else:
                candidates = [x for x in new if x not in matched and x != self.key and new[x].startswith(main)]
                check(candidates, 'the content of the log file is lost')
                matched[candidates[0]] = len(main)
                self.rotations += 1
        added = [content[matched.get(path, 0):] for path, content in new.items()]
        added = [x for x in added if x]
        check(added == [line], 'exactly the new line must be added', [x[:200] for x in added], line[:200])

    def run(self):
        with Faults(self.scratch.path, self.path) as faults:
            self.faults = faults
            for step in self.case['history']:
                if step[0] == 'write':
                    self.write(*step[1:])
                elif step[0] == 'advance':
                    self.ticker.advance(step[1])
                elif step[0] == 'fault':
                    if step[1] == 'blocked':
                        self.block()
                    else:
                        faults.armed = step[1]
                elif step[0] == 'restart':
                    faults.armed = None
                    files.close(self.handlers, step[1] % len(self.handlers))
                    self.handlers[step[1] % len(self.handlers)] = self.make()
                    if self.case['flush']:
                        # The file is created again if the last rotation failed in the middle.
                        now = self.scratch.snapshot()
                        check({k: v for k, v in now.items() if v} == {k: v for k, v in self.files.items() if v}, 'a new handler changed files')
                        self.files = now
        for index in range(len(self.handlers)):
            files.close(self.handlers, index)
        files.check_documents(self.scratch.snapshot(), self.expected, self.initial, ordered=self.case['handlers'] == 1)
        return faults.fired


def run_sequential(case):
    ticker = clock.Clock()
    if case['handlers'] == 2 and not case['flush']:
        case = dict(case, handlers=1)
    polog = fresh.load(substitutes=ticker.modules())
    with files.Scratch() as scratch:
        program = Sequential(case, scratch, polog, ticker)
        fired = program.run()
    return Result(program.rotations > 0 or not case['flush'], ['fault' if fired else 'no fault', f'{min(program.rotations, 5)} rotations', case['format']])


# Threads.

def threads_strategy():
    return st.fixed_dictionaries({
        'rule': kit.weighted((8, st.sampled_from(['1 b', '20 b', '60 b', '200 b', '9 kb'])), (1, st.none())),
        'threads': st.lists(st.lists(kit.weighted((4, st.integers(0, 30)), (2, st.integers(100, 300)), (1, st.sampled_from([8192, 9000, 20000]))), min_size=1, max_size=4), min_size=2, max_size=3),
        'handlers': st.integers(1, 2),
        'flush': kit.weighted((5, st.just(True)), (1, st.just(False))),
        'lock': st.sampled_from(['thread', 'thread+file']),
        'frozen': st.booleans(),
        'schedule': sched.schedules(),
    })


def run_threads(case):
    world = sched.world()
    fcntl = files.FakeFcntl()
    ticker = clock.Clock()
    ticks = [0]

    def now():
        # Time stands still or moves by a microsecond per reading.
        ticks[0] += 0 if case['frozen'] else 1
        return 1600000000.25 + ticks[0] * 0.000001
    ticker.now = now
    substitutes = {**world, 'datetime': ticker.modules()['datetime']}
    lock = 'thread+file' if case['handlers'] == 2 else case['lock']
    saved = sys.modules['fcntl']
    errors = []
    alts = []
    expected = {}
    with files.Scratch() as scratch:
        sys.modules['fcntl'] = fcntl
        try:
            fresh.load(substitutes=substitutes)
            writer = fresh.module('polog.handlers.file.writer').file_writer
            item = fresh.module('polog.core.log_item').LogItem
            item()
            handlers = [writer('file.log', formatter=lambda log: log['message'] + '\n', alt=alts.append, lock_type=lock, forced_flush=case['flush'],
                               rotation=None if case['rule'] is None else f"{case['rule']} >> archive") for x in range(case['handlers'])]

            def body(thread, sizes):
                try:
                    for number, length in enumerate(sizes):
                        text = files.make_line(thread, number, length)
                        expected[(thread, number)] = (text + '\n').encode()
                        log = item()
                        log.set_data({'message': text})
                        handlers[thread % len(handlers)](log)
                except BaseException as e:
                    errors.append(e)

            def main():
                threads = [world['threading'].Thread(target=body, args=x, daemon=True) for x in enumerate(case['threads'])]
                for x in threads:
                    x.start()
                for x in threads:
                    x.join()
            _, scheduler = sched.run(case['schedule'], main)
            if not case['flush']:
                for index in range(len(handlers)):
                    files.close(handlers, index)
        finally:
            sys.modules['fcntl'] = saved
            fresh.abandon()
        check(not errors, 'a thread got an exception', errors)
        check(not alts, 'a log was passed to alt instead of the file')
        documents = scratch.snapshot()
        files.check_documents(documents, expected)
    return Result(scheduler.preemptions and len(documents) > 1, [f"{case['handlers']} handlers", lock, f'{min(len(documents) - 1, 5)} archives'])


# Processes.

def processes_strategy():
    return st.fixed_dictionaries({
        'rotation': st.sampled_from(['1 b', '100 b', '2 kb', '40 kb', '1 mb', None]).map(lambda x: x and f'{x} >> archive'),
        'processes': st.integers(2, 3),
        'threads': st.integers(1, 3),
        'handlers': st.integers(1, 2),
        'lock': st.sampled_from(['thread+file', 'file+thread']),
        'lines': st.lists(st.sampled_from([1, 50, 300, 9000, 30000]), min_size=10, max_size=40),
    })


def run_processes(case):
    with files.Scratch() as scratch:
        programs = []
        try:
            for index in range(case['processes']):
                programs.append(subprocess.Popen([sys.executable, '-B', os.path.join(VERIF, 'programs', 'file_program.py'), json.dumps(case), str(index), REPO], cwd=scratch.path,
                                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE))
            for program in programs:
                if program.stdout.readline() != b'ready\n':
                    check(False, 'the program failed inside of the code under test', program.communicate()[1].decode(errors='replace')[-1500:])
            for program in programs:
                program.stdin.write(b'go\n')
                program.stdin.flush()
            for program in programs:
                try:
                    out, errors = program.communicate(timeout=100)
                except subprocess.TimeoutExpired:
                    check(False, 'the processes do not end: a deadlock')
                check_eq(program.returncode, 0, f'exit code of a process, {errors.decode(errors="replace")[-1500:]}')
                check_eq(json.loads(out)['failed'], 0, 'logs passed to alt instead of the file')
        finally:
            for program in programs:
                if program.poll() is None:
                    program.kill()
                    program.wait()
                for stream in (program.stdin, program.stdout, program.stderr):
                    stream.close()
        documents = scratch.snapshot()
        expected = {}
        for index in range(case['processes']):
            for number in range(case['threads']):
                for line, length in enumerate(case['lines']):
                    thread = index * 100 + number
                    expected[(thread, line)] = (files.make_line(thread, line, length) + '\n').encode()
        files.check_documents(documents, expected, ordered=case['handlers'] == 1)
    return Result(len(documents) > 1, [f"{case['processes']} processes", f'{min(len(documents) - 1, 5)} archives'])


# Whatever text the formatter returns.

TEXTS = ['', ' ', '\n', '\t\n', '\r\n', 'no end', '\0', '\ud800', 'ab\udfff\n', '\u2028', 'two\nlines\n', '  padded  \n', '\ufeff', '%s {} \\n\n']


def texts_strategy():
    text = kit.weighted((3, st.sampled_from(TEXTS)), (3, st.text(max_size=12)), (1, st.text(st.characters(), min_size=1, max_size=4)),
                        (1, st.sampled_from([['none'], ['bytes'], ['number'], ['raise']])))
    return st.fixed_dictionaries({
        'target': st.sampled_from(['path', 'path', 'path', 'object', 'opened', 'stdout']),
        'flush': st.booleans(),
        'lock': st.sampled_from([None, 'thread', 'thread+file']),
        'existing': st.sampled_from(['', 'old', 'old\n']),
        'texts': st.lists(text, min_size=1, max_size=10),
    })


WRONG = {'none': None, 'bytes': b'bytes\n', 'number': 5}


def run_texts(case):
    polog = fresh.load()
    alts = []

    def formatter(log):
        text = case['texts'][log['extra']]
        if isinstance(text, str):
            return text
        if text[0] == 'raise':
            raise ValueError('formatter')
        return WRONG[text[0]]
    with files.Scratch() as scratch:
        path = os.path.join(scratch.path, 'file.log')
        with open(path, 'w', encoding='utf-8') as file:
            file.write(case['existing'])
        expected = case['existing'].encode()
        target = path
        stdout = sys.stdout
        memory = case['target'] in ('object', 'stdout')
        if memory:
            target = io.StringIO(newline='')
            expected = b''
        elif case['target'] == 'opened':
            target = open(path, 'a', encoding='utf-8', newline='')
        writer = fresh.module('polog.handlers.file.writer').file_writer
        settings = {'formatter': formatter, 'alt': alts.append, 'forced_flush': case['flush'], 'lock_type': 'thread' if case['target'] != 'path' else case['lock']}
        if case['target'] == 'stdout':
            # Without a target it is the standard output.
            sys.stdout = target
            handlers = [writer(**settings)]
        else:
            handlers = [writer(target, **settings)]

        def content():
            if memory:
                # A buffer in memory takes any text.
                return target.getvalue().encode(errors='surrogatepass')
            with open(path, 'rb') as file:
                return file.read()
        failed = []
        try:
            for number, text in enumerate(case['texts']):
                log = make_log(polog, 'message', number)
                fine = isinstance(text, str)
                if fine:
                    try:
                        expected += text.encode(errors='surrogatepass' if memory else 'strict')
                    except UnicodeEncodeError:
                        fine = False
                if not fine:
                    failed.append(log)
                handlers[0](log)
                check([id(x) for x in alts] == [id(x) for x in failed], 'exactly the logs that cannot be written are passed to alt, once', number, len(alts), len(failed))
                if case['flush'] or memory:
                    check_eq(content(), expected, 'content of the file right after the call')
        finally:
            sys.stdout = stdout
            if case['target'] == 'opened':
                target.close()
            elif case['target'] == 'path':
                files.close(handlers, 0)
        check_eq(content(), expected, 'content of the file at the end')
    return Result(bool(failed) or any(isinstance(x, str) and not x.endswith('\n') for x in case['texts']), [case['target'], 'flushed' if case['flush'] else 'buffered', 'failed' if failed else 'all written'])


FACETS = [
    Facet('sequential', sequential_strategy, run_sequential, quick=2500),
    Facet('texts', texts_strategy, run_texts, quick=2500),
    Facet('threads', threads_strategy, run_threads, quick=2500),
    Facet('processes', processes_strategy, run_processes, quick=64),
]
