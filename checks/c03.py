"""C03: reconfiguration on the fly under generated schedules."""
import threading

from hypothesis import strategies as st

from vlib import events, fresh, kit, sched
from vlib.core import Facet, Result, check, check_eq

ID = 'C03'
TECHNIQUE = 'property-based testing: generated programs of logging and reconfiguring threads under a deterministic scheduler, against a delivery model'
RULE = ('A case is an initial pool and queue size, logging threads with their events, threads that change settings, handlers and fields, '
        'whether handlers log themselves, and the schedule (points and targets of thread switches). Checked: exactly-once delivery to the '
        'permanent handlers, the windows of handlers and fields added or deleted meanwhile, everything accepted before a change of the engine '
        'is handled when the change returns, the order of handling with never more than one worker, no exception in any thread, no deadlock or livelock. Non-trivial: the engine was really reloaded '
        'or handlers / fields were changed while logging, and at least one preemption happened.')
ASSUMPTIONS = ['schedules are explored at the granularity of source lines of polog and lock operations',
               'handlers that log themselves are not combined with a limited queue (a worker would wait for itself)',
               'the same handler name is not registered by two threads at once']

SETTINGS = [
    ['level', 0], ['level', 1], ['default_level', 2], ['time_quant', 0.001], ['time_quant', 0.05], ['service_name', 'some_name'], ['service_name', None],
    ['fields_intersection', True], ['fields_intersection', False], ['deduplicate_errors', False], ['full_unlog', False],
    ['max_delay_before_exit', 2.0], ['delay_on_exit_loop_iteration_in_quants', 2], ['silent_internal_exceptions', True],
]

change = st.one_of(
    st.tuples(st.just('pool'), st.integers(0, 3)).map(list),
    st.tuples(st.just('pool'), st.integers(0, 3)).map(list),
    st.tuples(st.just('queue'), st.integers(0, 2)).map(list),
    st.sampled_from(SETTINGS).map(lambda x: ['setting'] + x),
    st.tuples(st.just('add_handler'), st.booleans()).map(list),
    st.just(['delete_handler']),
    st.tuples(st.just('add_field'), st.booleans()).map(list),
    st.just(['delete_field']),
    st.tuples(st.just('log'), st.sampled_from(['manual', 'deco', 'with', 'async'])).map(list),
)


def strategy():
    return st.fixed_dictionaries({
        'logging': st.booleans(),
        'handlers': st.lists(st.sampled_from(['ok', 'ok', 'raise', 'slow']), min_size=1, max_size=2),
        'pool': st.integers(0, 2),
        'narrow': st.booleans(),
        'queue': st.integers(0, 2),
        'started': st.booleans(),
        'threads': st.lists(st.lists(st.sampled_from(events.KINDS[:-1]), min_size=1, max_size=5), min_size=1, max_size=3),
        'changes': st.lists(st.lists(change, min_size=1, max_size=4), min_size=1, max_size=2),
        'schedule': sched.schedules(max_switches=40),
    })


class Clock:
    """A logical clock: the order of the observed moments (only one thread runs at a time)."""
    def __init__(self):
        self.value = 0
        self.lock = threading.Lock()

    def tick(self):
        with self.lock:
            self.value += 1
            return self.value


class History:
    def __init__(self):
        self.clock = Clock()
        self.emitted = {}     # text -> [start, end]
        self.handled = {}     # handler -> {text: [moments]}
        self.windows = {}     # temporary handler -> [add start, add end, delete start, delete end]
        self.reloads = []     # [start, end]
        self.fields = {}      # field -> windows as above, plus text -> value present
        self.field_seen = {}
        self.errors = []


def narrowed(case):
    """The same with no more than one worker at any moment."""
    if not case['narrow']:
        return case
    return dict(case, pool=min(case['pool'], 1), changes=[[[x[0], min(x[1], 1)] if x[0] == 'pool' else x for x in part] for part in case['changes']])


def run(case, world, runner, sleep, threads_module):
    case = narrowed(case)
    polog = fresh.load(substitutes=world)
    config = polog.config
    history = History()
    clock = history.clock
    limited = case['queue'] or any(x[0] == 'queue' and x[1] for part in case['changes'] for x in part)
    logging = case['logging'] and not limited
    behaviours = case['handlers'] + (['logging'] if logging else [])

    def make_handler(key, behaviour):
        got = history.handled[key] = {}

        def handler(log):
            message = log.get('message')
            sched.point()
            if behaviour == 'slow':
                sleep(0.015)
            got.setdefault(message, []).append(clock.tick())
            if key == 0:
                history.field_seen[message] = {x for x in log if x.startswith('extra_')}
            if behaviour == 'raise':
                raise ValueError('handler failed')
            if behaviour == 'logging' and not message.startswith('inner'):
                emit('manual', f'inner {message}')
        return handler

    def emit(kind, text):
        moment = history.emitted[text] = [clock.tick(), None]
        emitter.emit(kind, text)
        moment[1] = clock.tick()

    for index, behaviour in enumerate(behaviours):
        config.add_handlers(make_handler(index, behaviour))
    emitter = events.Emitter(polog)

    def body_of_logger(number, names):
        try:
            for index, name in enumerate(names):
                emit(name, f't{number} {index}')
        except BaseException as e:
            history.errors.append(e)

    def body_of_changer(number, changes):
        added, fields = [], []
        try:
            for index, item in enumerate(changes):
                key = f'{number}_{index}'
                if item[0] in ('pool', 'queue'):
                    start = clock.tick()
                    try:
                        config.set(**{'pool_size' if item[0] == 'pool' else 'max_queue_size': item[1]})
                    except ValueError:
                        continue  # the conflict of pool_size and max_queue_size
                    history.reloads.append([item[0], item[1], start, clock.tick()])
                elif item[0] == 'setting':
                    config.set(**{item[1]: item[2]})
                elif item[0] == 'add_handler':
                    name = f'branch.temporary_{key}' if item[1] else f'temporary_{key}'
                    handler = make_handler(name, 'ok')
                    window = history.windows[name] = [clock.tick(), None, None, None]
                    config.add_handlers({name: handler})
                    window[1] = clock.tick()
                    added.append(name)
                elif item[0] == 'delete_handler':
                    if added:
                        name = added.pop()
                        window = history.windows[name]
                        window[2] = clock.tick()
                        config.delete_handlers(name)
                        window[3] = clock.tick()
                elif item[0] == 'add_field':
                    name = f'extra_{key}'
                    window = history.fields[name] = [clock.tick(), None, None, None, item[1]]
                    (config.add_engine_fields if item[1] else config.add_fields)(**{name: polog.field(lambda log: 'value')})
                    window[1] = clock.tick()
                    fields.append(name)
                elif item[0] == 'delete_field':
                    if fields:
                        name = fields.pop()
                        window = history.fields[name]
                        window[2] = clock.tick()
                        (config.delete_engine_fields if window[4] else config.delete_fields)(name)
                        window[3] = clock.tick()
                elif item[0] == 'log':
                    emit(item[1], f'c{number} {index}')
        except BaseException as e:
            history.errors.append(e)

    def main():
        config.set(pool_size=case['pool'])
        history.reloads.append(['pool', case['pool'], clock.tick(), clock.tick()])
        if case['pool']:
            config.set(max_queue_size=case['queue'])
        history.reloads.append(['queue', case['queue'] if case['pool'] else 0, clock.tick(), clock.tick()])
        if case['started']:
            emit('manual', 'the first one')
        threads = [threads_module.Thread(target=body_of_logger, args=x, daemon=True) for x in enumerate(case['threads'])]
        threads += [threads_module.Thread(target=body_of_changer, args=x, daemon=True) for x in enumerate(case['changes'])]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        emit('manual', 'the last one')
        config.set(max_queue_size=0)
        config.set(pool_size=0)
    scheduler = runner(main)
    verify(history, behaviours)
    if case['narrow']:
        verify_order(history, behaviours)
    return history, scheduler


def verify_order(history, behaviours):
    """There is never more than one worker: what was logged later is handled later, whatever changes between."""
    texts = sorted((x for x in history.emitted if not x.startswith('inner')), key=lambda x: history.emitted[x][0])
    for key in range(len(behaviours)):
        moments = history.handled[key]
        latest = []  # (end of logging, moment of handling)
        for text in texts:
            start, end = history.emitted[text]
            for other, other_end, moment in latest:
                check(not (other_end < start and moment > moments[text][0]), 'with one worker records are handled in the order they were logged', key, other, text)
            latest.append((text, end, moments[text][0]))


def verify(history, behaviours):
    check(not history.errors, 'a thread got an exception', history.errors)
    expected = set(history.emitted)
    for key, got in history.handled.items():
        for text, moments in got.items():
            check(text in expected, 'a record that was not logged', text)
            check(len(moments) == 1, 'a record is delivered more than once', key, text)
    for key in range(len(behaviours)):
        lost = sorted(expected - set(history.handled[key]))
        check(not lost, f'records lost by a permanent handler {key}', lost)
    for name, (add_start, add_end, delete_start, delete_end) in history.windows.items():
        got = history.handled[name]
        for text, (start, end) in history.emitted.items():
            first = history.handled[0][text][0]
            if text in got:
                check(got[text][0] > add_start, 'a handler worked before it was registered', name, text)
                check(delete_end is None or start < delete_end, 'a handler worked after it was deleted', name, text)
            else:
                # It was in force during the whole life of the record.
                last = max(history.handled[key][text][0] for key in range(len(behaviours)))
                inside = start > add_end and (delete_start is None or last < delete_start and end is not None and end < delete_start)
                check(not inside or delete_start is not None, 'a registered handler did not get the record', name, text)
    for name, (add_start, add_end, delete_start, delete_end, engine) in history.fields.items():
        for text, (start, end) in history.emitted.items():
            has = name in history.field_seen[text]
            if has:
                check(delete_end is None or start < delete_end, 'a field was extracted after it was deleted', name, text)
            else:
                check(not (start > add_end and delete_start is None), 'a registered field was not extracted', name, text)
    for kind, value, start, finish in history.reloads:
        if kind != 'pool' and kind != 'queue':
            continue
        previous = None
        for text, (_, end) in history.emitted.items():
            if end is not None and end < start and not text.startswith('inner'):
                for key in range(len(behaviours)):
                    if not history.handled[key][text][0] < finish:
                        previous = (kind, value, text, key)
        # The value may have been the same as before: then there is no change and nothing to wait for.
        if previous is not None and changed(history, kind, value, start):
            check(False, 'the engine was changed before it had handled what was accepted', previous)


def changed(history, kind, value, start):
    """Was it surely another value before? Only changes that had ended before this one count; overlapping ones make it unknown."""
    relevant = [x for x in history.reloads if x[0] == kind]
    if any(x[2] < start < x[3] for x in relevant):
        return False
    before = [x for x in relevant if x[3] < start]
    if not before:
        return False
    last = max(before, key=lambda x: x[3])
    if any(x is not last and x[3] > last[2] and x[2] < last[3] for x in before):
        return False
    return last[1] != value


def run_schedule(case):
    world = sched.world()
    box = {}

    def runner(main):
        # The threads of an engine that was never loaded do not exist: the engine is stopped by the end of main().
        _, box['scheduler'] = sched.run(case['schedule'], main)
        return box['scheduler']
    try:
        history, scheduler = run(case, world, runner, world['time'].sleep, world['threading'])
        check_eq(scheduler.leftover, 0, 'threads still running after the engine was stopped')
    finally:
        fresh.abandon()
    changes = len(history.reloads) - 2 + len(history.windows) + len(history.fields)
    labels = ['first log races' if not case['started'] else 'started before', 'preempted' if scheduler.preemptions else 'not preempted']
    labels += sorted({x[0] for part in case['changes'] for x in part})
    return Result(changes and scheduler.preemptions, labels)


def real_strategy():
    base = st.fixed_dictionaries({
        'logging': st.booleans(),
        'handlers': st.lists(st.sampled_from(['ok', 'raise']), min_size=1, max_size=2),
        'pool': st.integers(0, 3),
        'narrow': st.booleans(),
        'queue': st.sampled_from([0, 0, 2]),
        'started': st.booleans(),
        'threads': st.lists(st.lists(st.sampled_from(events.KINDS[:-1]), min_size=5, max_size=25), min_size=2, max_size=4),
        'changes': st.lists(st.lists(change, min_size=3, max_size=8), min_size=1, max_size=2),
    })
    return base


def run_real(case):
    def runner(main):
        main()
    history, _ = run(case, None, runner, lambda x: None, threading)
    return Result(len(history.reloads) > 2 or history.windows or history.fields, ['real threads'])


FACETS = [
    Facet('schedule', strategy, run_schedule, quick=2800),
    Facet('real', real_strategy, run_real, quick=48, thorough=1000),
]
