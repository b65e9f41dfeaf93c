"""C02: exactly-once delivery of every record to each of its handlers, under any schedule."""
import threading

from hypothesis import strategies as st

from vlib import events, fresh, kit, sched
from vlib.core import Facet, Result, check, check_eq

ID = 'C02'
TECHNIQUE = 'property-based testing: generated histories, faults and thread schedules (deterministic scheduler) against a delivery model'
RULE = ('A case is a set of handlers (well-behaved, raising, exiting, slow, logging, (un)registering others), failing fields, a pool and '
        'queue size, logging threads with their events through all entry points, and - in the schedule facet - the points and targets of '
        'thread switches. Every handler must have got every event exactly once. Non-trivial: a handler or field fails, or two or more '
        'threads log and at least one preemption happened.')
ASSUMPTIONS = ['schedules are explored at the granularity of source lines of polog and lock operations',
               'handlers that log themselves are not combined with a limited queue (a worker would wait for itself)']

BEHAVIOURS = ['ok', 'ok', 'raise', 'exit', 'stop', 'rewrite', 'clear', 'slow']
FIELDS = ['ok', 'raise', 'exit']


class Interrupt(BaseException):
    pass


class Handlers:
    """The handlers of a case, with what each of them has got."""
    def __init__(self, polog, behaviours, sleep=lambda x: None):
        self.polog = polog
        self.sleep = sleep
        self.got = {}
        self.handlers = []
        for index, behaviour in enumerate(behaviours):
            self.handlers.append(self.make(index, behaviour))

    def make(self, index, behaviour):
        got = self.got[index] = []
        polog = self.polog
        state = {'done': False}

        def handler(log):
            message = log.get('message')
            if behaviour == 'slow':
                self.sleep(0.02)
            sched.point()
            if message is not None and message.startswith('inner'):
                got.append(message)
                return
            got.append(message)
            if behaviour == 'raise':
                raise ValueError('handler failed')
            if behaviour == 'exit':
                raise SystemExit(3)
            if behaviour == 'stop':
                raise StopIteration
            if behaviour == 'rewrite':
                log['message'] = 'other'
            if behaviour == 'clear':
                del log['message']
            if behaviour == 'logging':
                polog.log(f'inner {index} {message}')
            if behaviour == 'register' and not state['done']:
                state['done'] = True
                polog.config.add_handlers(**{f'late_{index}': lambda log: None})
            if behaviour == 'unregister' and not state['done']:
                state['done'] = True
                polog.config.delete_handlers(f'victim_{index}')
        if behaviour == 'unregister':
            polog.config.add_handlers(**{f'victim_{index}': lambda log: None})
        return handler


def add_fields(polog, names):
    def make(behaviour):
        def extractor(log):
            if behaviour == 'raise':
                raise KeyError('field failed')
            if behaviour == 'exit':
                raise SystemExit(4)
            return 'value'
        return polog.field(extractor)
    for index, (place, behaviour) in enumerate(names):
        (polog.config.add_fields if place == 'in' else polog.config.add_engine_fields)(**{f'field_{index}': make(behaviour)})


fields = st.lists(st.tuples(st.sampled_from(['in', 'engine']), st.sampled_from(FIELDS)).map(list), max_size=3)
kind = st.sampled_from(events.KINDS)


def sync_strategy():
    return st.fixed_dictionaries({
        'handlers': st.lists(st.sampled_from(BEHAVIOURS + ['logging', 'register', 'unregister']), min_size=1, max_size=5),
        'local': st.lists(st.sampled_from(BEHAVIOURS), max_size=2),
        'fields': fields,
        'events': st.lists(st.one_of(kind, st.just('local')), min_size=1, max_size=8),
        'dotted': st.booleans(),
    })


def register(polog, handlers, dotted):
    if dotted:
        path = []
        for index, handler in enumerate(handlers):
            path.append(f'node_{index}')
            polog.config.add_handlers({'.'.join(path[-2:]): handler})
    else:
        polog.config.add_handlers(*handlers)


def run_sync(case):
    polog = fresh.load()
    polog.config.set(smart_assert_politic='all')
    group = Handlers(polog, case['handlers'])
    local = Handlers(polog, case['local'])
    register(polog, group.handlers, case['dotted'])
    add_fields(polog, case['fields'])
    emitter = events.Emitter(polog)

    @polog.log(handlers=local.handlers)
    def with_local(text):
        polog.log.message(text)

    expected = []
    expected_local = []
    inner = 0
    for number, name in enumerate(case['events']):
        text = f'event {number}'
        if name == 'local':
            with_local(text)
            expected_local.append(text)
        else:
            emitter.emit(name, text)
            expected.append(text)
        inner_now = sorted(f'inner {index} {text}' for index, behaviour in enumerate(case['handlers']) if behaviour == 'logging') if name != 'local' else []
        inner += len(inner_now)
        # Without workers everything is delivered by the time the logging call returns.
        for index, got in group.got.items():
            check_eq([x for x in got if not x.startswith('inner')], expected, f'events seen by handler {index} ({case["handlers"][index]}) after the call')
            seen_inner = [x for x in got if x.startswith('inner')]
            check_eq(len(seen_inner), inner, 'logs of a handler itself seen so far')
            check_eq(len(set(seen_inner)), inner, 'different logs of a handler itself')
        for index, got in local.got.items():
            check_eq(got, expected_local, f'events seen by local handler {index}')
    failing = [x for x in case['handlers'] + case['local'] if x != 'ok'] + [x for x in case['fields'] if x[1] != 'ok']
    return Result(failing, sorted(set(case['events'])))


def threads_strategy():
    return st.fixed_dictionaries({
        'handlers': st.lists(st.sampled_from(BEHAVIOURS), min_size=1, max_size=4),
        'logging': st.booleans(),
        'fields': fields,
        'pool': st.integers(0, 3),
        'queue': st.integers(0, 3),
        'threads': st.lists(st.lists(kind, min_size=1, max_size=4), min_size=1, max_size=4),
        'schedule': sched.schedules(),
    })


def verify(case, group):
    wanted = [[f't{t} {n}' for n in range(len(names))] for t, names in enumerate(case['threads'])]
    everything = sorted(x for part in wanted for x in part)
    behaviours = case['handlers'] + (['logging'] if case['logging'] and not case['queue'] else [])
    for index, got in group.got.items():
        plain = [x for x in got if not x.startswith('inner')]
        check_eq(sorted(plain), everything, f'events seen by handler {index} ({behaviours[index]})')
        inner = sorted(x for x in got if x.startswith('inner'))
        check_eq(inner, sorted(f'inner {i} {x}' for i, b in enumerate(behaviours) if b == 'logging' for x in everything), f'logs of handlers seen by handler {index}')
        if case['pool'] == 1:
            for t, part in enumerate(wanted):
                check_eq([x for x in plain if x.startswith(f't{t} ')], part, f'order of the events of one thread with one worker, handler {index}')


def prepare(case, polog, sleep):
    polog.config.set(smart_assert_politic='all')
    behaviours = case['handlers'] + (['logging'] if case['logging'] and not case['queue'] else [])
    group = Handlers(polog, behaviours, sleep)
    polog.config.add_handlers(*group.handlers)
    add_fields(polog, case['fields'])
    return group, events.Emitter(polog)


def run_schedule(case):
    world = sched.world()
    polog = fresh.load(substitutes=world)
    threading = world['threading']
    try:
        group, emitter = prepare(case, polog, world['time'].sleep)
        errors = []

        def main():
            polog.config.set(pool_size=case['pool'])
            if case['pool']:
                polog.config.set(max_queue_size=case['queue'])

            def body(number, names):
                try:
                    for index, name in enumerate(names):
                        emitter.emit(name, f't{number} {index}')
                except BaseException as e:
                    errors.append(e)
            threads = [threading.Thread(target=body, args=(number, names)) for number, names in enumerate(case['threads'])]
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join()
            polog.config.set(max_queue_size=0)
            polog.config.set(pool_size=0)
        _, scheduler = sched.run(case['schedule'], main)
        check(not errors, 'a logging thread got an exception', errors)
        check_eq(scheduler.leftover, 0, 'threads still running after the engine was stopped')
        verify(case, group)
    finally:
        fresh.abandon()
    failing = [x for x in case['handlers'] if x != 'ok'] + [x for x in case['fields'] if x[1] != 'ok']
    labels = [f'pool {case["pool"]}', 'preempted' if scheduler.preemptions else 'not preempted']
    return Result(failing or (len(case['threads']) > 1 and scheduler.preemptions), labels)


def real_strategy():
    return st.fixed_dictionaries({
        'handlers': st.lists(st.sampled_from(['ok', 'raise', 'exit', 'slow']), min_size=1, max_size=3),
        'logging': st.booleans(),
        'fields': fields,
        'pool': st.integers(0, 4),
        'queue': st.sampled_from([0, 0, 1, 5]),
        'threads': st.lists(st.lists(kind, min_size=10, max_size=30), min_size=2, max_size=5),
    })


def run_real(case):
    """The same with real threads: a smoke test of what the scheduler replaces."""
    polog = fresh.load()
    group, emitter = prepare(case, polog, lambda seconds: None)
    polog.config.set(time_quant=0.001)
    polog.config.set(pool_size=case['pool'])
    if case['pool']:
        polog.config.set(max_queue_size=case['queue'])
    errors = []

    def body(number, names):
        try:
            for index, name in enumerate(names):
                emitter.emit(name, f't{number} {index}')
        except BaseException as e:
            errors.append(e)
    threads = [threading.Thread(target=body, args=(number, names), daemon=True) for number, names in enumerate(case['threads'])]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    kit.drain(polog)
    check(not errors, 'a logging thread got an exception', errors)
    verify(case, group)
    return Result(True, [f'pool {case["pool"]}'])


FACETS = [
    Facet('sync', sync_strategy, run_sync, quick=1600),
    Facet('schedule', threads_strategy, run_schedule, quick=2400),
    Facet('real', real_strategy, run_real, quick=160, thorough=2000),
]
