"""Small helpers shared by the checks."""
import asyncio
import inspect
import time

from vlib import fresh
from vlib.core import Violation, check


class Record(dict):
    """What a record has got."""
    def __missing__(self, key):
        raise Violation(f'a record has no field {key!r}: {sorted(map(str, self))}')


class Sink:
    """A handler that takes a snapshot of every record it gets."""
    def __init__(self, name='sink'):
        self.name = name
        self.records = []
        self.pairs = []

    def __call__(self, log):
        record = Record(log.items())
        self.pairs.append((log, record))
        self.records.append(record)

    def take(self):
        result = self.records
        self.records = []
        self.pairs = []
        return result


def function_sink():
    """The same thing as a plain function: returns (handler, list of snapshots)."""
    records = []

    def handler(log):
        records.append(Record(log.items()))
    return handler, records


def run_async(coroutine):
    """asyncio.run() without the cost and the side effects of its cleanup."""
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(coroutine)
    finally:
        loop.close()


class Patience:
    """True for about as many seconds, and for many attempts: a machine that stopped for a while does not count."""
    def __init__(self, seconds=20, attempts=20000):
        self.end = time.monotonic() + seconds
        self.attempts = attempts

    def __bool__(self):
        self.attempts -= 1
        return self.attempts > 0 or time.monotonic() < self.end


def drain(polog):
    """Wait until everything that was logged is handled: stopping the workers guarantees it (property C03)."""
    polog.config.set(max_queue_size=0)
    polog.config.set(pool_size=0)


def weighted(*pairs):
    """One of the strategies, with the given weights (nested one_of() calls are flattened by Hypothesis, so they cannot do it)."""
    from hypothesis import strategies as st
    options = []
    for weight, strategy in pairs:
        options.extend([strategy] * weight)
    return st.integers(0, len(options) - 1).flatmap(lambda x: options[x])


def drive(coroutine):
    """Run a coroutine that never really waits."""
    try:
        coroutine.send(None)
    except StopIteration as e:
        return e.value
    raise AssertionError('the coroutine waits')
