"""C11: unlog."""
import asyncio
import builtins
import functools
import logging
import threading

from hypothesis import strategies as st

from checks import c01
from vlib import coros, events, fresh, kit, values
from vlib.core import Facet, Result, check, check_eq

ID = 'C11'
TECHNIQUE = 'property-based testing: generated call trees with @unlog in all places (threads and tasks interleaved) against a model of the extents it covers'
RULE = ('A case is a set of call trees of functions, coroutines, methods, static and class methods with stacks of @log and @unlog in any order (also '
        'through class decorators, as @-log, with full given or not), which write logs through every entry point, call each other, wait for child '
        'tasks, change the full_unlog setting and end by a value or an exception; run in sequence, in threads or as tasks. The model tells for each '
        'event whether it is recorded. Non-trivial: some event happens inside of an unlogged call and some event is recorded.')
ASSUMPTIONS = ['several @unlog on one function have the same "full"', 'tasks that outlive the unlogged call which created them are not generated']

EVENTS = events.KINDS + ['logging']
stacks = kit.weighted(
    (4, st.lists(st.just('log'), min_size=1, max_size=2)),
    (1, st.just([])),
    (4, st.lists(st.sampled_from(['log', 'unlog', 'unlog', 'minus']), min_size=1, max_size=4)),
)


def nodes(children, limit=4):
    step = kit.weighted(
        (4, st.sampled_from(EVENTS).map(lambda x: ['event', x])),
        (1, st.just(['wait'])),
        (4, st.tuples(st.just('call'), children, st.booleans()).map(list)),
        (1, st.lists(children, min_size=2, max_size=3).map(lambda x: ['tasks', x])),
        (1, st.tuples(st.just('inside_with'), children).map(list)),
        (1, st.booleans().map(lambda x: ['setting', x])),
    )
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['function', 'function', 'async', 'async', 'method', 'static', 'classmethod', 'async_method']),
        'stack': stacks,
        'full': st.sampled_from([None, None, True, False]),
        'class': st.sampled_from([None, None, 'log', 'unlog', 'minus', 'log_then_unlog', 'unlog_then_log', 'inherited_unlog', 'log_only_other']),
        'base': st.sampled_from(['object', 'object', 'dict', 'list', 'str', 'Exception']),
        'steps': st.lists(step, min_size=1, max_size=limit),
        'fails': kit.weighted((3, st.none()), (1, st.sampled_from(['ValueError', 'KeyError', 'FrozenError']))),
        'calls': st.sampled_from([1, 1, 2]),
        'name': st.sampled_from(['function', 'function', '_function', '_Class__function', 'x']),
    })


tree = st.recursive(nodes(st.just(None)), nodes, max_leaves=6)


def pile(floors):
    """Calls inside of calls inside of calls."""
    node = None
    for floor, caught in floors:
        node = floor if node is None else {**floor, 'steps': [['call', node, caught], *floor['steps']], 'calls': 1}
    return [node]


tower = st.lists(st.tuples(nodes(st.just(None), 1), st.booleans()), min_size=5, max_size=14).map(pile)


def strategy():
    return st.fixed_dictionaries({
        'trees': kit.weighted((12, st.lists(tree, min_size=1, max_size=3)), (1, tower)),
        'mode': st.sampled_from(['sequence', 'sequence', 'threads', 'tasks', 'tasks']),
        'setting': st.booleans(),
        'dedup': st.booleans(),
    })


NATIVE = [('dict', {1: 2}, 'get', (1,), 2), ('list', [1, 2], 'index', (2,), 1), ('str', 'ab', 'upper', (), 'AB')]


class Program:
    def __init__(self, case, polog, sink):
        self.case = case
        self.polog = polog
        self.sink = sink
        self.emitter = events.Emitter(polog)
        self.lock = threading.RLock()
        self.setting = case['setting']
        self.expected = []
        self.count = 0
        self.covered = 0
        self.recorded = []

    def number(self):
        with self.lock:
            self.count += 1
            return str(self.count)

    def is_off(self, extents):
        return any(self.setting if x is None else x for x in extents)

    def expect(self, number, extents):
        with self.lock:
            if extents:
                self.covered += 1
            if not self.is_off(extents):
                self.expected.append(number)

    def unlog(self, spelling, full):
        source = self.polog.unlog if spelling == 'unlog' else -self.polog.log
        return source if full is None else source(full=full)

    def make(self, node, body, number):
        """The function, its own extent (a list) and whether it writes an automatic record."""
        is_unlogged = any(x != 'log' for x in node['stack'])
        is_logged = 'log' in node['stack']
        kind = node['kind']
        if kind in ('async', 'async_method'):
            async def function(*args):
                return await body()
        else:
            def function(*args):
                return kit.drive(body())
        logs = node['stack'].count('log')
        for x in node['stack']:
            if x == 'log':
                logs -= 1
                function = self.polog.log(number if not logs else 'not this')(function)
            else:
                function = self.unlog(x, node['full'])(function)
        if kind in ('method', 'static', 'classmethod', 'async_method'):
            wrapped = {'static': staticmethod, 'classmethod': classmethod}.get(kind, lambda x: x)(function)

            def other(self):
                pass
            Class = type('Class', (getattr(builtins, node['base']),), {node['name']: wrapped, 'other': other, 'dispatched': functools.singledispatchmethod(lambda self, x: 'any')})
            Class.dispatched.register(int, lambda self, x: 'int')
            how = node['class']
            if how in ('log', 'log_then_unlog'):
                Class = self.polog.log(number)(Class)
                is_logged = True
            if how in ('unlog', 'minus', 'log_then_unlog', 'unlog_then_log'):
                Class = self.unlog('unlog' if how != 'minus' else how, node['full'])(Class)
                is_unlogged = True
            if how == 'unlog_then_log':
                Class = self.polog.log(number)(Class)
            if how == 'inherited_unlog':
                Class = self.unlog('unlog', node['full'])(Class)
                Class = type('Child', (Class,), {})
                is_unlogged = True
            if how == 'log_only_other':
                Class = self.polog.log('not this', methods=['other'])(Class)
            for base, argument, method, arguments, expected in NATIVE:
                if base == node['base']:
                    check_eq(getattr(Class(argument), method)(*arguments), expected, 'result of a method of a built-in type')
            check_eq((Class().dispatched(1), Class().dispatched('')), ('int', 'any'), 'results of a method with binding logic of its own')
            function = getattr(Class if kind in ('static', 'classmethod') else Class(), node['name'])
        return function, [node['full']] if is_unlogged else [], is_logged and not is_unlogged

    async def call(self, node, extents, can_wait):
        if node is None:
            return
        number = self.number()
        is_async = node['kind'] in ('async', 'async_method')
        can_wait = can_wait and is_async
        inner = list(extents)

        async def body():
            for step in node['steps']:
                await self.step(step, inner, can_wait)
            if node['fails'] is not None:
                raise values.build_exception(node['fails'])
        function, extent, is_logged = self.make(node, body, number)
        inner.extend(extent)
        failure = None
        for x in range(node['calls']):
            try:
                result = function()
                if is_async:
                    await result
            except Exception as e:
                self.serious(e)
                failure = e
            if is_logged and (failure is None or not self.is_dropped(failure)):
                # The setting is read at the end of the call, and nothing else runs between that moment and this line in this thread.
                before = len(self.expected)
                self.expect(number, extents)
                if failure is not None and len(self.expected) > before:
                    self.recorded.append(failure)
            if failure is not None:
                break
        if failure is not None:
            raise failure

    def is_dropped(self, exception):
        return self.case['dedup'] and any(x is exception for x in self.recorded)

    def event(self, kind, extents):
        number = self.number()
        if kind == 'logging':
            logging.getLogger().log(35, number)
        else:
            self.emitter.emit(kind, number)
        self.expect(number, extents)

    def serious(self, e):
        if type(e).__name__ in ('Violation', 'HarnessError', 'AssertionError'):
            raise e

    async def step(self, step, extents, can_wait):
        kind = step[0]
        if kind == 'event':
            self.event(step[1], extents)
        elif kind == 'wait':
            if can_wait:
                await asyncio.sleep(0)
        elif kind == 'call':
            try:
                await self.call(step[1], extents, can_wait)
            except Exception as e:
                self.serious(e)
                if not step[2]:
                    raise
        elif kind == 'inside_with':
            number = self.number()
            try:
                with self.polog.log(number):
                    await self.call(step[1], extents, can_wait)
            except Exception as e:
                self.serious(e)
            self.expect(number, extents)
        elif kind == 'tasks':
            for x in (await asyncio.gather(*[self.call(x, extents, can_wait) for x in step[1]], return_exceptions=True)) if can_wait else ():
                if isinstance(x, BaseException):
                    self.serious(x)
        elif kind == 'setting':
            if self.case['mode'] == 'sequence':
                self.polog.config.set(full_unlog=step[1])
                self.setting = step[1]

    def run(self):
        mode = self.case['mode']
        problems = []

        def alone(node):
            try:
                kit.drive(self.call(node, [], False))
            except Exception as e:
                if type(e).__name__ in ('Violation', 'HarnessError', 'AssertionError'):
                    problems.append(e)
            try:
                self.event('manual', [])
                self.event('deco', [])
            except Exception as e:
                problems.append(e)
        if mode == 'sequence':
            for x in self.case['trees']:
                alone(x)
        elif mode == 'threads':
            threads = [threading.Thread(target=alone, args=(x,), daemon=True) for x in self.case['trees']]
            for x in threads:
                x.start()
            for x in threads:
                x.join()
        else:
            async def main():
                async def one(node):
                    try:
                        await self.call(node, [], True)
                    except Exception as e:
                        self.serious(e)
                    self.event('manual', [])
                    await asyncio.sleep(0)
                    self.event('deco', [])
                for x in await asyncio.gather(*[one(x) for x in self.case['trees']], return_exceptions=True):
                    if isinstance(x, BaseException):
                        raise x
            kit.run_async(main())
        if problems:
            raise problems[0]


def run(case):
    polog = fresh.load()
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    polog.config.set(full_unlog=case['setting'], deduplicate_errors=case['dedup'], smart_assert_politic='all', integration_with_logging=True)
    logging.root.setLevel(0)
    program = Program(case, polog, sink)
    program.run()
    real = sorted(str(x.get('message')) for x in sink.records)
    check_eq(real, sorted(program.expected), 'records')
    return Result(program.covered and program.expected, [case['mode'], 'full by the setting' if case['setting'] else 'not full by the setting', f'{min(program.covered, 6)} covered'])


decorators = st.tuples(st.sampled_from(['unlog', 'minus']), st.sampled_from([None, True, False])).map(list)
transparent_stack = st.one_of(
    st.lists(decorators, min_size=1, max_size=2),
    st.tuples(decorators, st.just(['log', None])).map(list),
    st.tuples(st.just(['log', None]), decorators).map(list),
)


def stack_decorator(polog, stack):
    def decorate(item):
        for spelling, full in stack:
            if spelling == 'log':
                item = polog.log(item)
            else:
                source = polog.unlog if spelling == 'unlog' else -polog.log
                item = source(item) if full is None else source(full=full)(item)
        return item
    return decorate


def call_strategy():
    return st.tuples(c01.strategy(), transparent_stack).map(lambda x: {**x[0], 'stack': x[1]})


def run_call(case):
    if case['kind'] in c01.VARIADIC and case['outcome'] == ['badcall']:
        case = dict(case, outcome=['return', ['v', None]])
    polog = fresh.load()
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    c01.compare(case, polog, stack_decorator(polog, case['stack']), lambda: (False, ()))
    check(not sink.records, 'an unlogged function wrote a record', sink.records)
    return Result(case['outcome'][0].startswith('raise') or case['args'] or case['kwargs'], [case['kind'], case['outcome'][0]])


def coroutine_strategy():
    return st.tuples(c01.coroutine_strategy(), transparent_stack).map(lambda x: {**x[0], 'stack': x[1]})


def run_coroutine(case):
    polog = fresh.load()
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    trace = c01.compare_coroutines(case, stack_decorator(polog, case['stack']))
    check(not sink.records, 'an unlogged coroutine wrote a record', sink.records)
    polog.handle_log('after')
    check_eq([x.get('message') for x in sink.records], ['after'], 'records after the end of the coroutine')
    return Result(len(trace) > 1 and case['script'], [case['kind'], trace[-1][0]])


def generator_strategy():
    return st.tuples(c01.generator_strategy(), transparent_stack).map(lambda x: {**x[0], 'stack': x[1]})


def run_generator(case):
    polog = fresh.load()
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    trace = c01.compare_generators(case, stack_decorator(polog, case['stack']))
    check(not sink.records, 'an unlogged generator function wrote a record', sink.records)
    polog.handle_log('after')
    check_eq([x.get('message') for x in sink.records], ['after'], 'records after the end of the generator')
    return Result(len(trace) > 1 and case['script'], [case['generator'], case['kind'], trace[-1][0]])


FACETS = [Facet('trees', strategy, run, quick=4000), Facet('call', call_strategy, run_call, quick=3000), Facet('coroutines', coroutine_strategy, run_coroutine, quick=3000),
          Facet('generators', generator_strategy, run_generator, quick=800)]
