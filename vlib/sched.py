"""A deterministic scheduler for the threads of the code under test.

polog is imported with a `threading`, `queue` and `time` of our own (the standard library's sources executed over a fake
`_thread`), so all of its locks, queues, threads, sleeps and timeouts belong to the scheduler. Tasks are real threads,
but only the one that holds the baton runs. The baton moves

  * at "yield points": every source line of polog (sys.settrace) and every operation with a lock - when the schedule says so;
  * when the running task blocks or ends.

A schedule is an input of the case (JSON):
    {"gaps": [[n, pick, freeze], ...]}  after n more yield points (a lone task has none) switch to the pick-th other runnable task (from the list, in
                                        order; after its end only forced switches remain); if freeze is not 0, the task that
                                        loses the baton cannot run for that time, even if others wait for their timeouts
    {"seed": s, "rate": r, "freeze": p} the same, with pseudo random gaps of about r yield points; a part p of them freezes

Time is virtual: it moves when nobody can run, to the nearest deadline. If there is no deadline either, it is a deadlock.
"""
import _thread
import gc
import importlib.util
import random
import sys
import time as real_time
import types

from hypothesis import strategies as st

from vlib.core import REPO, HarnessError, Violation

_real_lock = _thread.allocate_lock
_real_ident = _thread.get_ident
_real_start = _thread.start_new_thread

PREFIX = REPO + '/polog/'
FAIRNESS = 3000  # a task never runs longer than this number of yield points while others can run


class Stuck(Violation):
    """Deadlock or livelock of the code under test."""


def schedules(max_switches=30, max_gap=1500):
    gap = st.one_of(st.integers(0, 12), st.integers(0, 150), st.integers(0, max_gap))
    freeze = st.sampled_from([0, 0, 0, 0.02, 2.0])
    explicit = st.lists(st.tuples(gap, st.integers(0, 5), freeze).map(list), min_size=2, max_size=max_switches).map(lambda x: {'gaps': x})

    def seeded(rates):
        return st.tuples(st.integers(1, 10 ** 6), st.sampled_from(rates), st.sampled_from([0, 0, 0.1, 0.4])).map(lambda x: {'seed': x[0], 'rate': x[1], 'freeze': x[2]})
    return st.one_of(seeded([2, 5]), seeded([15, 40]), seeded([100, 300]), explicit)


class Task:
    __slots__ = ('name', 'baton', 'ready', 'deadline', 'timed_out', 'done', 'sentinels', 'ident', 'process')

    def __init__(self, name):
        self.name = name
        self.baton = _real_lock()
        self.baton.acquire()
        self.ready = None      # None: runnable; otherwise a predicate
        self.deadline = None
        self.timed_out = False
        self.done = False
        self.sentinels = []
        self.ident = None


class Scheduler:
    current_one = None

    def __init__(self, schedule, max_steps=400000, max_time=3600.0):
        self.tasks = []
        self.alive = 0
        self.by_ident = {}
        self.running = None
        self.now = 0.0
        self.steps = 0
        self.run_length = 0
        self.switches = 0
        self.preemptions = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.finished = _real_lock()
        self.finished.acquire()
        self.problem = None
        self.error = None
        self.dead = False
        if 'gaps' in schedule:
            self.gaps = iter(schedule['gaps'])
            self.random = None
        else:
            self.random = random.Random(schedule['seed'])
            self.rate = schedule['rate']
            self.freezing = schedule.get('freeze', 0)
        self.picks = random.Random(schedule.get('seed', len(schedule.get('gaps', ()))))
        self.next_gap()

    def next_gap(self):
        if self.random is not None:
            self.gap = int(self.random.expovariate(1.0 / self.rate)) if self.random.random() < 0.97 else self.random.randrange(2000)
            self.pick = self.random.randrange(6)
            self.freeze = self.random.choice([0.02, 0.2, 2.0]) if self.freezing and self.random.random() < self.freezing else 0
        else:
            item = next(self.gaps, None)
            if item is None:
                self.gap, self.pick, self.freeze = None, 0, 0
            else:
                self.gap, self.pick, self.freeze = (*item, 0)[:3]

    # Called by the controller.

    def run(self, function):
        """Run function() as the main task; returns its result."""
        box = {}

        def main():
            try:
                box['result'] = function()
            except BaseException as e:
                box['error'] = e
        Scheduler.current_one = self
        collecting = gc.isenabled()
        gc.disable()
        try:
            self.main_task = self.start(main, (), 'main')
            self.running = self.main_task
            self.main_task.baton.release()
            self.finished.acquire()
        finally:
            Scheduler.current_one = None
            self.dead = True
            if collecting:
                gc.enable()
        leftover = [x for x in self.tasks if not x.done]
        if self.problem is not None:
            raise Stuck(self.problem)
        if 'error' in box:
            raise box['error']
        self.leftover = len(leftover)
        return box.get('result')

    def finish(self, problem=None):
        if self.problem is None:
            self.problem = problem
        self.dead = True
        self.finished.release()

    # Called by tasks.

    def start(self, function, args, name=None):
        task = Task(name or f'task {len(self.tasks)}')
        self.tasks.append(task)
        self.alive += 1

        def bootstrap():
            task.ident = _real_ident()
            self.by_ident[task.ident] = task
            task.baton.acquire()
            if self.dead:
                park()
            sys.settrace(self.trace)
            try:
                function(*args)
            except SystemExit:
                pass
            except BaseException as e:
                self.error = e
            finally:
                sys.settrace(None)
                self.end(task)
        _real_start(bootstrap, ())
        while task.ident is None:
            real_time.sleep(0)
        return task

    def end(self, task):
        task.done = True
        self.alive -= 1
        for lock in task.sentinels:
            lock._locked = False
        del self.by_ident[task.ident]
        if task is self.main_task:
            self.finish()
            return
        target = self.choose(task)
        if target is None:
            self.finish(self.describe('deadlock'))
            return
        self.running = target
        self.run_length = 0
        target.baton.release()

    def me(self):
        task = self.by_ident.get(_real_ident())
        if task is None and self.dead:
            park()
        return task

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return self.trace_line
        return None

    def trace_line(self, frame, event, arg):
        if event == 'line':
            self.yield_point()
        return self.trace_line

    def yield_point(self):
        if self.dead:
            if self.by_ident.get(_real_ident()) is not None:
                park()
            return
        self.steps += 1
        self.run_length += 1
        if self.gap is not None and self.alive > 1:
            self.gap -= 1
            if self.gap < 0:
                pick, freeze = self.pick, self.freeze
                self.next_gap()
                if freeze:
                    self.preemptions += 1
                    self.sleep(freeze)
                else:
                    self.switch(pick)
                return
        if self.run_length > FAIRNESS:
            self.switch(0)
        if self.steps > self.max_steps:
            self.give_up('livelock (too many steps)')

    def runnable(self, except_task=None):
        result = []
        for task in self.tasks:
            if task.done or task is except_task:
                continue
            if task.ready is None or task.ready():
                result.append(task)
        return result

    def switch(self, pick):
        """Preemption: the running task stays runnable."""
        me = self.running
        others = self.runnable(me)
        self.run_length = 0
        if self.steps > self.max_steps:
            self.give_up('livelock (too many steps)')
        if not others:
            return
        self.preemptions += 1
        self.transfer(me, others[pick % len(others)])

    def transfer(self, me, target):
        if target is me:
            return
        self.switches += 1
        self.running = target
        self.run_length = 0
        target.baton.release()
        me.baton.acquire()
        if self.dead:
            park()

    def choose(self, me):
        """Who runs when me cannot (moves the time if nobody can)."""
        candidates = self.runnable()
        if candidates:
            return candidates[self.picks.randrange(len(candidates))] if len(candidates) > 1 else candidates[0]
        waiting = [x for x in self.tasks if not x.done and x.deadline is not None]
        if not waiting:
            return None
        target = min(waiting, key=lambda x: x.deadline)
        self.now = max(self.now, target.deadline)
        if self.now > self.max_time:
            return None
        target.timed_out = True
        target.ready = None
        target.deadline = None
        return target

    def block(self, ready, timeout=None):
        """Wait until ready() is true; False if the timeout was over first."""
        me = self.running
        me.ready = ready
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        me.timed_out = False
        target = self.choose(me)
        if target is None:
            self.give_up('deadlock' if self.now <= self.max_time else 'livelock (time is over)')
        self.transfer(me, target)
        me.ready = None
        me.deadline = None
        return not me.timed_out

    def give_up(self, kind):
        self.finish(self.describe(kind))
        park()

    def describe(self, kind):
        lines = [f'{kind} after {self.steps} steps, virtual time {self.now:.2f}']
        frames = sys._current_frames()
        for task in self.tasks:
            if task.done:
                continue
            place = []
            frame = frames.get(task.ident)
            while frame is not None:
                if frame.f_code.co_filename.startswith(PREFIX):
                    place.append(f'{frame.f_code.co_filename[len(REPO) + 1:]}:{frame.f_lineno} {frame.f_code.co_name}')
                frame = frame.f_back
            lines.append(f'{task.name}: ' + ' < '.join(place[:4]))
        return '\n'.join(lines)

    def sleep(self, seconds):
        self.block(lambda: False, seconds)


def park():
    """The scheduler is gone: this thread must not run anymore (it is a daemon of the interpreter)."""
    sys.settrace(None)
    lock = _real_lock()
    lock.acquire()
    lock.acquire()


def here():
    """The scheduler and the task of the calling thread, or (None, None)."""
    scheduler = Scheduler.current_one
    if scheduler is None:
        return None, None
    return scheduler, scheduler.me()


def point():
    """A yield point for the code of the checks."""
    scheduler, task = here()
    if task is not None:
        scheduler.yield_point()


class FakeLock:
    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        scheduler, task = here()
        if task is None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                raise Stuck('a lock that is never released is acquired again')
            self._locked = True
            return True
        scheduler.yield_point()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        if not scheduler.block(lambda: not self._locked, None if timeout < 0 else timeout):
            return False
        self._locked = True
        return True

    __enter__ = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        point()

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return self._locked

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._locked = False


def _start_new_thread(function, args, kwargs=None):
    scheduler, task = here()
    if scheduler is None:
        raise HarnessError('a thread is started outside of the scheduler')
    started = scheduler.start(lambda *a: function(*a, **(kwargs or {})), args)
    scheduler.yield_point()
    if started.ident is None:
        raise HarnessError('the thread did not start')
    return started.ident


def _set_sentinel():
    lock = FakeLock()
    scheduler, task = here()
    if task is not None:
        task.sentinels.append(lock)
    return lock


class FakeTime(types.ModuleType):
    def __init__(self):
        super().__init__('time')
        for name in dir(real_time):
            if not name.startswith('__'):
                setattr(self, name, getattr(real_time, name))
        self.base = 1600000000.0
        self.ticks = 0
        self.time = lambda: self.base + self.read()
        self.monotonic = self.perf_counter = self.process_time = self.thread_time = lambda: 1000.0 + self.read()
        self.time_ns = lambda: int(self.time() * 10 ** 9)
        self.monotonic_ns = self.perf_counter_ns = lambda: int(self.monotonic() * 10 ** 9)
        self.sleep = self.do_sleep

    def read(self):
        scheduler = Scheduler.current_one
        return 0.0 if scheduler is None else scheduler.now

    def do_sleep(self, seconds):
        scheduler, task = here()
        if task is not None:
            scheduler.sleep(seconds)


def _execute(name, substitutes):
    spec = importlib.util.find_spec(name)
    module = types.ModuleType(name)
    module.__file__ = spec.origin
    saved = {}
    for key, value in substitutes.items():
        saved[key] = sys.modules.get(key, saved)
        sys.modules[key] = value
    try:
        code = _codes.get(name)
        if code is None:
            with open(spec.origin, encoding='utf-8') as file:
                code = _codes[name] = compile(file.read(), spec.origin, 'exec')
        exec(code, module.__dict__)
    finally:
        for key, value in saved.items():
            if value is saved:
                del sys.modules[key]
            else:
                sys.modules[key] = value
    return module


_codes = {}


def world():
    """The modules polog must see: {'threading': ..., 'queue': ..., 'time': ...}. New ones for every case: nothing in them
    (such as the registry of threads by their identifiers) may depend on earlier cases."""
    fake_thread = types.ModuleType('_thread')
    for name in dir(_thread):
        if not name.startswith('__') and name not in ('RLock', 'allocate_lock', 'start_new_thread', 'start_new', 'allocate', 'LockType', 'lock', '_set_sentinel'):
            setattr(fake_thread, name, getattr(_thread, name))
    fake_thread.allocate_lock = fake_thread.allocate = FakeLock
    fake_thread.LockType = fake_thread.lock = FakeLock
    fake_thread.start_new_thread = fake_thread.start_new = _start_new_thread
    fake_thread._set_sentinel = _set_sentinel
    fake_time = FakeTime()
    os_module = sys.modules['os']
    fake_os = types.ModuleType('os')
    fake_os.__dict__.update(os_module.__dict__)
    fake_os.register_at_fork = lambda **kwargs: None
    threading = _execute('threading', {'_thread': fake_thread, 'time': fake_time, 'os': fake_os})
    queue = _execute('queue', {'threading': threading, 'time': fake_time, '_queue': None})
    return {'threading': threading, 'queue': queue, 'time': fake_time}


def run(schedule, function, **kwargs):
    """Run function() under a new scheduler; returns (result, scheduler)."""
    scheduler = Scheduler(schedule, **kwargs)
    return scheduler.run(function), scheduler
