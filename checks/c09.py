"""C09: deduplication of errors."""
import asyncio
import threading

from hypothesis import strategies as st

from vlib import fresh, kit, values
from vlib.core import Facet, Result, check, check_eq

ID = 'C09'
TECHNIQUE = 'property-based testing: generated call chains with exceptions propagating, replaced and caught, against a model of which frame records what'
RULE = ('A case is a set of call trees of functions, coroutines and methods, decorated (with levels, errors levels, suppression) or not, under @unlog '
        'or not, where exceptions of many classes are raised, pass through frames, are caught, raised again as they are or as another one, with '
        'other failing calls made while they are handled; in sequence, in threads and as interleaved tasks; the level filter and the setting change '
        'between trees. The model gives the list of frames that record each exception object. Non-trivial: an exception passes through at least two decorated frames.')
ASSUMPTIONS = ['an exception object is raised by one raise statement only (raising the very same object anew in another call is not generated)']

EXCEPTIONS = sorted(values.EXCEPTIONS)


frame = st.fixed_dictionaries({
    'decorated': kit.weighted((6, st.just(True)), (1, st.just(False))),
    'kind': st.sampled_from(['function', 'function', 'method', 'static', 'async', 'async']),
    'twice': kit.weighted((5, st.just(False)), (1, st.just(True))),
    'unlog': kit.weighted((9, st.just(False)), (1, st.just(True))),
    'level': st.sampled_from([None, None, None, 0, 3, 'high']),
    'errors': st.sampled_from([None, None, None, 0, 1, 5, 'high']),
    'suppress': kit.weighted((10, st.none()), (1, st.just([])), (1, st.lists(st.sampled_from(sorted(values.CLASSES)), min_size=1, max_size=2))),
    'wait': st.booleans(),
    'end': kit.weighted((3, st.none()), (2, st.sampled_from(EXCEPTIONS))),
})
leaf = st.tuples(frame, st.sampled_from(EXCEPTIONS)).map(lambda x: {**x[0], 'end': x[1], 'steps': []})
link = st.tuples(
    frame,
    kit.weighted((6, st.sampled_from(['propagate', 'reraise', 'raise_again'])), (3, st.sampled_from(['swallow', 'replace', 'replace_from', 'call_in_handler', 'finally_call']))),
    st.one_of(st.none(), leaf),
    st.one_of(st.none(), st.none(), leaf),
)


def chain(parts):
    links, node = parts
    for upper, reaction, other, before in links:
        steps = [] if before is None else [[before, 'swallow', None]]
        steps.append([node, reaction, other])
        node = {**upper, 'steps': steps}
    return node


tree = st.tuples(kit.weighted((12, st.lists(link, min_size=1, max_size=6)), (1, st.lists(link, min_size=7, max_size=16))), leaf).map(chain)


def strategy():
    return st.fixed_dictionaries({
        'rounds': st.lists(st.fixed_dictionaries({
            'dedup': st.booleans() | st.just(True),
            'level': st.sampled_from([0, 0, 2, 3]),
            'mode': st.sampled_from(['sequence', 'threads', 'tasks']),
            'trees': st.lists(tree, min_size=1, max_size=2),
        }), min_size=1, max_size=2),
        'full': st.sampled_from([True, False, None]),
        'full_setting': st.booleans(),
    })


NAMES = {'high': 7}


class Program:
    def __init__(self, case, polog, sink):
        self.case = case
        self.polog = polog
        self.sink = sink
        self.expected = []
        self.known = []
        self.lock = threading.RLock()
        self.count = 0
        self.longest = {}

    def full(self):
        return self.case['full'] if self.case['full'] is not None else self.case['full_setting']

    def left(self, number, node, exception, unlogged):
        """The model: an exception leaves the frame of a function."""
        with self.lock:
            entry = next((x for x in self.known if x[0] is exception), None)
            if entry is None:
                entry = [exception, False]
                self.known.append(entry)
            if not node['decorated'] or node['unlog'] or (unlogged and self.full()):
                return
            self.longest[id(exception)] = self.longest.get(id(exception), 0) + 1
            if entry[1] and self.dedup:
                return
            level = self.level_of(node)
            if level < self.level:
                return
            entry[1] = True
            self.expected.append((number, type(exception).__name__))

    def level_of(self, node):
        get = lambda x: NAMES.get(x, x)
        if node['errors'] is not None:
            return get(node['errors'])
        return max(1, 2, get(node['level']) if node['level'] is not None else 0)

    def make(self, node, unlogged, can_wait):
        with self.lock:
            number = self.count
            self.count += 1
        inside = unlogged or node['unlog']

        async def body():
            try:
                for child, reaction, other in node['steps']:
                    if node['wait'] and can_wait:
                        await asyncio.sleep(0)
                    await self.step(child, reaction, other, inside, can_wait)
                if node['end'] is not None:
                    raise values.build_exception(node['end'])
            except Exception as e:
                if type(e).__name__ not in ('Violation', 'HarnessError'):
                    self.left(number, node, e, unlogged)
                raise

        if node['kind'] == 'async':
            async def function(*args):
                return await body()
        else:
            def function(*args):
                return kit.drive(body())
        decorated = function
        if node['decorated']:
            decorated = self.decorate(node, number, decorated)
        if node['unlog']:
            decorated = self.polog.unlog(decorated) if self.case['full'] is None else self.polog.unlog(full=self.case['full'])(decorated)
        if node['kind'] == 'method':
            Owner = type('Owner', (), {'function': decorated})
            decorated = Owner().function
        elif node['kind'] == 'static':
            Owner = type('Owner', (), {'function': staticmethod(decorated)})
            decorated = Owner.function
        return decorated

    def decorate(self, node, number, function):
        kwargs = {}
        if node['level'] is not None:
            kwargs['level'] = node['level']
        if node['errors'] is not None:
            kwargs['errors_level'] = node['errors']
        if node['twice']:
            function = self.polog.log('not this')(function)
        decorator = self.polog.log(str(number), **kwargs)
        if node['suppress'] is not None:
            decorator = decorator.suppress(*[values.CLASSES[x] for x in node['suppress']])
        return decorator(function)

    async def call(self, node, unlogged, can_wait):
        if node is None:
            return
        is_async = node['kind'] == 'async'
        function = self.make(node, unlogged, can_wait and is_async)
        result = function()
        if is_async:
            await result

    async def step(self, child, reaction, other, inside, can_wait):
        if reaction == 'finally_call':
            try:
                await self.call(child, inside, can_wait)
            finally:
                try:
                    await self.call(other, inside, can_wait)
                except Exception as e:
                    self.serious(e)
            return
        try:
            await self.call(child, inside, can_wait)
        except Exception as e:
            self.serious(e)
            if reaction == 'propagate':
                raise
            elif reaction == 'reraise':
                kept = e
            elif reaction == 'raise_again':
                raise e
            elif reaction == 'replace':
                raise ArithmeticError('replaced')
            elif reaction == 'replace_from':
                raise ArithmeticError('replaced') from e
            elif reaction == 'call_in_handler':
                try:
                    await self.call(other, inside, can_wait)
                except Exception as e2:
                    self.serious(e2)
                raise
        else:
            return
        if reaction == 'reraise':
            raise kept

    def serious(self, e):
        if type(e).__name__ in ('Violation', 'HarnessError'):
            raise e

    def round(self, data):
        self.polog.config.set(deduplicate_errors=data['dedup'], level=data['level'])
        self.dedup = data['dedup']
        self.level = data['level']
        self.expected = []
        self.sink.take()
        problems = []

        def alone(node):
            try:
                kit.drive(self.call(node, False, False))
            except Exception as e:
                if type(e).__name__ in ('Violation', 'HarnessError'):
                    problems.append(e)
        if data['mode'] == 'sequence':
            for x in data['trees']:
                alone(x)
        elif data['mode'] == 'threads':
            threads = [threading.Thread(target=alone, args=(x,), daemon=True) for x in data['trees']]
            for x in threads:
                x.start()
            for x in threads:
                x.join()
        else:
            async def main():
                for x in await asyncio.gather(*[self.call(x, False, True) for x in data['trees']], return_exceptions=True):
                    if isinstance(x, BaseException):
                        self.serious(x)
            kit.run_async(main())
        if problems:
            raise problems[0]
        real = [(int(x['message']), x['exception_type']) for x in self.sink.records if not x['success']]
        expected = self.expected
        if data['mode'] == 'threads':
            real, expected = sorted(real), sorted(expected)
        check_eq(real, expected, f'frames that recorded the exceptions (dedup {self.dedup}, level {self.level})')


def run(case):
    polog = fresh.load()
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    polog.config.levels(**NAMES)
    polog.config.set(full_unlog=case['full_setting'])
    program = Program(case, polog, sink)
    for data in case['rounds']:
        program.round(data)
    return Result(any(x > 1 for x in program.longest.values()), [x['mode'] for x in case['rounds']] + [f'dedup {x["dedup"]}' for x in case['rounds']])


FACETS = [Facet('chains', strategy, run, quick=5000)]
