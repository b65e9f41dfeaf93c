"""Scratch directories, snapshots of files and the "every line exactly once and whole" oracle. Shared by C17 - C19."""
import gc
import io
import os
import re
import shutil
import tempfile
import types

from vlib import sched
from vlib.core import check, check_eq


class Scratch:
    """A scratch directory that is also the current directory."""
    def __init__(self, place=None):
        self.place = place if place and os.access(place, os.W_OK) else None

    def __enter__(self):
        self.old = os.getcwd()
        self.path = os.path.realpath(tempfile.mkdtemp(prefix='vp-files-', dir=self.place))
        os.chdir(self.path)
        return self

    def __exit__(self, *args):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)

    def snapshot(self):
        """{relative path: content} of all files except files of locks."""
        result = {}
        for directory, _, names in os.walk(self.path):
            for name in names:
                if name.endswith('.lock'):
                    continue
                path = os.path.join(directory, name)
                with io.open(path, 'rb') as file:
                    result[os.path.relpath(path, self.path)] = file.read()
        return result


def close(handlers, index):
    """Close the file of the handler (and so flush its buffer), as the end of the process would."""
    handler, handlers[index] = handlers[index], None
    try:
        handler.file.close()
    except AttributeError:
        # The internals are arranged in another way: the file is closed when the handler is collected.
        del handler
        gc.collect()


MARK = re.compile(rb'<(\d+):(\d+):')


def make_line(thread, number, size, kind='a'):
    """The text of a line with its identity at the beginning."""
    filler = {'a': 'x', 'я': 'я', '😀': '😀'}[kind] * size
    return f'<{thread}:{number}:{filler}>'


def split(title, document, expected, initial=()):
    """The identities of lines in the document, which must be a concatenation of whole lines (after one of the initial contents)."""
    position = 0
    for content in sorted(initial, key=len, reverse=True):
        if content and document.startswith(content):
            position = len(content)
            break
    result = []
    while position < len(document):
        mark = MARK.search(document, position)
        check(mark is not None, f'{title}: rests of a line', document[position:position + 200])
        identity = (int(mark.group(1)), int(mark.group(2)))
        check(identity in expected, f'{title}: a line nobody wrote', identity)
        line = expected[identity]
        check(document[position:position + len(line)] == line, f'{title}: the line {identity} is not whole or something else is in it', document[position:position + 120], line[:120])
        result.append(identity)
        position += len(line)
    return result


def check_documents(documents, expected, initial=(), ordered=True):
    """documents: {title: bytes}; expected: {(thread, number): bytes}. Every line is somewhere, whole, once; the lines of one thread are in order."""
    places = {}
    seen = {}
    for title in sorted(documents):
        identities = split(title, documents[title], expected, initial)
        by_thread = {}
        for identity in identities:
            check(identity not in places, f'the line {identity} is written twice', title, places.get(identity))
            places[identity] = title
            by_thread.setdefault(identity[0], []).append(identity[1])
        for thread, numbers in by_thread.items():
            if ordered:
                check_eq(numbers, sorted(numbers), f'{title}: order of the lines of thread {thread}')
            seen.setdefault(thread, []).append((numbers[0], numbers[-1], len(numbers), title))
    lost = sorted(set(expected) - set(places))
    check(not lost, 'lost lines', lost)
    if ordered:
        for thread, parts in seen.items():
            position = None
            for first, last, count, title in sorted(parts):
                check(position is None or first > position, f'the lines of thread {thread} go to and fro between files', parts)
                position = last


class FakeFcntl(types.ModuleType):
    """flock() of the scheduler's world: the lock belongs to the open file, and is taken on the file."""
    LOCK_SH, LOCK_EX, LOCK_NB, LOCK_UN = 1, 2, 4, 8

    def __init__(self, fail_acquire=None, fail_release=None):
        super().__init__('fcntl')
        self.holders = {}
        self.calls = 0
        self.fail_acquire = fail_acquire or (lambda fd: False)
        self.fail_release = fail_release or (lambda fd: False)

    def flock(self, file, operation):
        fd = file if isinstance(file, int) else file.fileno()
        key = os.fstat(fd).st_ino
        self.calls += 1
        sched.point()
        if operation & self.LOCK_UN:
            if self.fail_release(fd):
                raise OSError(5, 'cannot unlock')
            if self.holders.get(key) == fd:
                del self.holders[key]
            return
        if self.fail_acquire(fd):
            raise OSError(37, 'no locks available')
        if operation & self.LOCK_SH:
            return  # a shared lock excludes nobody here
        if self.holders.get(key, fd) != fd:
            if operation & self.LOCK_NB:
                raise BlockingIOError(11, 'locked')
            scheduler, task = sched.here()
            check(task is not None, 'a file lock that is never released is acquired')
            scheduler.block(lambda: self.holders.get(key, fd) == fd)
        self.holders[key] = fd

    def lockf(self, file, operation, *args):
        self.flock(file, operation)
