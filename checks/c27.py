"""C27: the handler that keeps records in memory."""
from hypothesis import strategies as st

from vlib import fresh, kit, sched
from vlib.core import Facet, Result, check, check_eq

ID = 'C27'
TECHNIQUE = 'model-based testing: generated histories of records, cleanings and repeated constructions against a list; generated programs of threads under a deterministic scheduler against the order of the observed moments'
RULE = ('Facet "histories": up to 20 operations: records of several kinds, records given directly, clean(), another construction of the handler, snapshots of the list taken before. After each one, "all" and "last" '
        'of every object that was constructed are compared with a list. Non-trivial: at least two records and a cleaning or a construction. Facet "threads": threads that construct the handler, log and clean under a generated '
        'schedule. Non-trivial: at least one preemption, and two records.')
ASSUMPTIONS = ['schedules are explored at the granularity of source lines of polog and lock operations']

KINDS = ['manual', 'call', 'error', 'async', 'direct']
operation = kit.weighted(
    (8, st.sampled_from(KINDS).map(lambda x: ['record', x])),
    (2, st.just(['clean'])),
    (2, st.just(['construct'])),
    (1, st.just(['snapshot'])),
    (1, st.tuples(st.just('burst'), st.sampled_from(['manual', 'direct']), st.sampled_from([30, 150, 600, 1500])).map(list)),
)


def strategy():
    return st.fixed_dictionaries({'history': st.lists(operation, min_size=2, max_size=20), 'pool': kit.weighted((3, st.just(0)), (1, st.just(1)))})


def make_emit(polog, saver_of):
    log = polog.log

    def emit(kind, text):
        if kind == 'manual':
            log(text)
        elif kind == 'call':
            @log(message=text)
            def function():
                pass
            function()
        elif kind == 'error':
            @log(message=text)
            def failing():
                raise ValueError
            try:
                failing()
            except ValueError:
                pass
        elif kind == 'async':
            @log(message=text)
            async def coroutine():
                pass
            kit.drive(coroutine())
        else:
            saver_of()({'message': text})
    return emit


def texts(records):
    return [x['message'] for x in records]


def run(case):
    polog = fresh.load()
    memory_saver = fresh.module('polog.handlers.memory.saver').memory_saver
    saver = memory_saver()
    polog.config.set(pool_size=case['pool'], time_quant=0.0005)
    polog.config.add_handlers(saver)
    emit = make_emit(polog, lambda: saver)
    check_eq(saver.all, [], 'a new handler is empty')
    check(saver.last is None, 'a new handler has no last record', saver.last)
    model, objects, snapshots, total, other = [], [saver], [], 0, 0
    for number, step in enumerate(case['history']):
        if step[0] == 'record':
            emit(step[1], f'record {number}')
            if case['pool']:
                kit.drain(polog)
                polog.config.set(pool_size=case['pool'])
            model.append(f'record {number}')
            total += 1
        elif step[0] == 'burst':
            for index in range(step[2]):
                emit(step[1], f'record {number}.{index}')
                model.append(f'record {number}.{index}')
            if case['pool']:
                kit.drain(polog)
                polog.config.set(pool_size=case['pool'])
            total += step[2]
        elif step[0] == 'clean':
            saver.clean()
            model = []
            other += 1
        elif step[0] == 'construct':
            objects.append(memory_saver())
            other += 1
        else:
            snapshots.append((list(saver.all), list(model)))
        for x in objects:
            check(x is saver, 'the handler is constructed once')
            check_eq(texts(x.all), model, f'after operation {number}: all')
            if model:
                check(x.last is x.all[-1], f'after operation {number}: last', x.last)
            else:
                check(x.last is None, f'after operation {number}: last', x.last)
        for real, expected in snapshots:
            check_eq(texts(real), expected, 'records taken before')
    return Result(total > 1 and other, [f'pool {case["pool"]}'])


threaded = kit.weighted(
    (6, st.sampled_from(KINDS).map(lambda x: ['record', x])),
    (2, st.just(['clean'])),
    (2, st.just(['construct'])),
)


def threads_strategy():
    return st.fixed_dictionaries({
        'pool': st.integers(0, 2),
        'constructed': st.booleans(),
        'threads': st.lists(st.lists(threaded, min_size=1, max_size=4), min_size=2, max_size=3),
        'schedule': sched.schedules(max_gap=300),
    })


def small_strategy():
    """Few steps, so that the switches fall into the handler itself."""
    step = st.sampled_from([['record', 'direct'], ['record', 'direct'], ['clean']])
    gap = st.tuples(st.integers(0, 25), st.integers(0, 2), st.sampled_from([0, 0, 0, 0.02])).map(list)
    return st.fixed_dictionaries({
        'pool': st.just(0),
        'constructed': st.just(True),
        'threads': st.lists(st.lists(step, min_size=1, max_size=2), min_size=2, max_size=2),
        'schedule': st.lists(gap, min_size=2, max_size=6).map(lambda x: {'gaps': x}),
    })


def run_threads(case):
    world = sched.world()
    polog = fresh.load(substitutes=world)
    memory_saver = fresh.module('polog.handlers.memory.saver').memory_saver
    clock, errors, objects, moments, cleanings = [0], [], [], {}, []
    constructed = case['constructed']

    def tick():
        clock[0] += 1
        return clock[0]

    def construct():
        objects.append(memory_saver())
        return objects[-1]
    emit = make_emit(polog, construct)

    def body(number, steps):
        try:
            for index, step in enumerate(steps):
                if step[0] == 'record':
                    # Before the handler is registered only direct records reach it.
                    kind = step[1] if constructed else 'direct'
                    moment = moments[f'{number} {index}'] = [tick(), None]
                    emit(kind, f'{number} {index}')
                    moment[1] = tick() if kind == 'direct' or not case['pool'] else None
                elif step[0] == 'clean':
                    saver = construct()
                    start = tick()
                    saver.clean()
                    cleanings.append((start, tick()))
                else:
                    construct()
        except BaseException as e:
            errors.append(e)

    def main():
        polog.config.set(pool_size=case['pool'])
        if constructed:
            polog.config.add_handlers(construct())
        threads = [world['threading'].Thread(target=body, args=x, daemon=True) for x in enumerate(case['threads'])]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        polog.config.set(pool_size=0)

    try:
        _, scheduler = sched.run(case['schedule'], main)
        if errors:
            raise errors[0]
        check(len({id(x) for x in objects}) <= 1, 'several handlers were constructed', len({id(x) for x in objects}))
        if objects:
            saver = objects[0]
            got = texts(saver.all)
            check_eq(len(set(got)), len(got), 'records are not repeated')
            check(set(got) <= set(moments), 'a record that was not made', got)
            for text, (start, end) in moments.items():
                if text in got:
                    check(not any(end is not None and end < x[0] for x in cleanings), 'a record that was cleaned is still here', text)
                else:
                    check(any(start < x[1] for x in cleanings), 'a record is lost', text)
            for number in range(len(case['threads'])):
                if case['pool'] < 2 and constructed:
                    mine = [x for x in got if x.startswith(f'{number} ') and (not case['pool'] or not direct(case, x))]
                    check_eq(mine, sorted(mine), 'the order of records of one thread')
            if got:
                check(saver.last is saver.all[-1], 'the last record', saver.last, got)
            else:
                check(saver.last is None, 'no last record', saver.last)
    finally:
        fresh.abandon()
    return Result(scheduler.preemptions and len(moments) > 1, ['first construction races' if not constructed else 'constructed before', f'pool {case["pool"]}'])


def direct(case, text):
    number, index = map(int, text.split())
    return case['threads'][number][index][1] == 'direct'


FACETS = [
    Facet('histories', strategy, run, quick=1500),
    Facet('threads', threads_strategy, run_threads, quick=1600),
    Facet('small', small_strategy, run_threads, quick=3000),
]
