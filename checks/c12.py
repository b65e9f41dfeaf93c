"""C12: message() edits the record of its own decorated call."""
import asyncio
import threading

from hypothesis import strategies as st

from vlib import fresh, kit, refjson, values
from vlib.core import Facet, HarnessError, Result, check, check_eq

ID = 'C12'
TECHNIQUE = 'property-based testing: generated call trees with message() calls everywhere (threads and tasks interleaved) against a model of the edits of each call'
RULE = ('A case is a set of call trees of decorated, undecorated and unlogged functions, coroutines and methods, which call message() / log.message() '
        '(also by level name) with valid and invalid arguments before, between and after calls of each other, write other logs, wait, start child '
        'tasks and threads, and end by a value or an exception; the level filter drops some of the records; strict and silent modes. Every record is compared with '
        'the model. Non-trivial: at least two message() calls in different calls, or an invalid one.')
ASSUMPTIONS = ['after a message() with a level, the filter has still used the level of the decorator']

SYNONYMS = {'class_': 'class', 'e': 'exception', 'vars': 'local_variables', 'locals': 'local_variables'}
NAMES = {'alpha': 3, 'beta': 8}
text = kit.weighted((8, st.sampled_from(['a', 'b', 'some text', ''])), (1, st.sampled_from(values.LONG)))
PAIRS = [
    st.tuples(st.just('message'), text.map(lambda x: ['v', x])),
    st.tuples(st.just('level'), st.one_of(st.integers(0, 9), st.sampled_from(['alpha', 'beta', 'unknown_name'])).map(lambda x: ['v', x])),
    st.tuples(st.sampled_from(['class_', 'class', 'module']), text.map(lambda x: ['v', x])),
    st.tuples(st.sampled_from(['vars', 'locals', 'local_variables']), text.map(lambda x: ['v', x])),
    st.tuples(st.just('success'), st.booleans().map(lambda x: ['v', x])),
    st.tuples(st.sampled_from(['extra', 'other', 'registered', 'result']), st.one_of(st.none(), st.integers(0, 5), text).map(lambda x: ['v', x])),
    st.tuples(st.sampled_from(['e', 'exception']), st.one_of(text.map(lambda x: ['v', x]), st.sampled_from(['ValueError', 'KeyError', 'StrFailsError', 'BoolError', 'ValueErrorEmpty', 'BothError']).map(lambda x: ['e', x]))),
    st.tuples(st.just('function'), text.map(lambda x: ['v', x])),
    st.tuples(st.sampled_from(['message', 'level', 'success', 'class_', 'e', 'module', 'extra']), values.value_specs()),
]


def different(pairs):
    result = []
    seen = set()
    for key, value in pairs:
        full = SYNONYMS.get(key, key)
        if full not in seen:
            seen.add(full)
            result.append([key, value])
    return result


arguments = st.fixed_dictionaries({
    'positional': kit.weighted((2, st.just([])), (3, text.map(lambda x: [x])), (1, st.lists(text, min_size=2, max_size=2))),
    'kwargs': st.lists(st.integers(0, len(PAIRS) - 1).flatmap(lambda x: PAIRS[x]), max_size=9).map(different),
    'through': st.sampled_from(['message', 'log.message', 'alpha']),
})


def nodes(children, limit=4):
    step = kit.weighted(
        (5, arguments.map(lambda x: ['message', x])),
        (1, st.just(['wait'])),
        (4, st.tuples(st.just('call'), children, st.booleans()).map(list)),
        (1, st.lists(children, min_size=2, max_size=2).map(lambda x: ['tasks', x])),
        (1, children.map(lambda x: ['thread', x])),
        (1, st.sampled_from(['manual', 'with', 'handle']).map(lambda x: ['other', x])),
    )
    return st.fixed_dictionaries({
        'how': kit.weighted((6, st.just('log')), (2, st.just('class')), (2, st.just('none')), (1, st.just('unlog'))),
        'kind': st.sampled_from(['function', 'function', 'async', 'async']),
        'text': st.sampled_from([None, 'own text']),
        'level': st.sampled_from([None, None, 0, 4]),
        'errors': st.sampled_from([None, None, 0, 4]),
        'steps': st.lists(step, min_size=1, max_size=limit),
        'fails': kit.weighted((3, st.none()), (1, st.sampled_from(['ValueError', 'KeyError', 'FrozenError', 'ValueErrorEmpty', 'StrFailsError', 'BothError']))),
        'suppress': st.booleans(),
    })


tree = st.recursive(nodes(st.just(None)), nodes, max_leaves=6)


def pile(floors):
    """Calls inside of calls inside of calls."""
    node = None
    for floor, caught in floors:
        node = floor if node is None else {**floor, 'steps': [*floor['steps'][:1], ['call', node, caught], *floor['steps'][1:]]}
    return [node]


tower = st.lists(st.tuples(nodes(st.just(None), 2), st.booleans()), min_size=5, max_size=12).map(pile)


def strategy():
    return st.fixed_dictionaries({
        'trees': kit.weighted((12, st.lists(tree, min_size=1, max_size=3)), (1, tower)),
        'mode': st.sampled_from(['sequence', 'threads', 'tasks', 'tasks']),
        'threshold': st.sampled_from([0, 0, 2]),
        'silent': st.booleans(),
        'unknown': st.booleans(),
        'registered': st.booleans(),
        'dedup': st.booleans(),
        'full_unlog': st.booleans(),
    })


class Uid(int):
    pass


class Invalid(Exception):
    pass


def build(spec):
    return values.build_exception(spec[1]) if spec[0] == 'e' else values.build(spec)


class Program:
    def __init__(self, case, polog, sink):
        self.case = case
        self.polog = polog
        self.sink = sink
        self.lock = threading.RLock()
        self.count = 0
        self.expected = {}
        self.others = 0
        self.messages = set()
        self.invalid = 0
        self.recorded = []
        self.problems = []

    # The model of message().

    def convert(self, key, value):
        is_text = type(value) is str
        if key == 'function':
            raise Invalid()
        if key == 'message':
            if not isinstance(value, str):
                raise Invalid()
        elif key in ('module', 'local_variables'):
            if not is_text:
                raise Invalid()
        elif key == 'class':
            if isinstance(value, type):
                return value.__name__
            if not is_text:
                raise Invalid()
        elif key == 'exception':
            if not is_text and not isinstance(value, Exception):
                raise Invalid()
        elif key == 'success':
            if type(value) is not bool:
                raise Invalid()
        elif key == 'level':
            if is_text and value in NAMES:
                return NAMES[value]
            if type(value) is not int or value < 0:
                raise Invalid()
        elif not self.case['unknown'] and not (key == 'registered' and self.case['registered']):
            raise Invalid()
        return value

    def edits(self, positional, kwargs):
        invalid = len(positional) > 1
        result = {}
        if positional:
            result['message'] = positional[0]
        for key, value in kwargs.items():
            key = SYNONYMS.get(key, key)
            try:
                value = self.convert(key, value)
            except Invalid:
                invalid = True
                continue
            if key in result:
                if result[key] != value:
                    invalid = True
                continue
            if value is not None:
                result[key] = value
        return result, invalid

    def message(self, data, frame):
        kwargs = {k: build(v) for k, v in data['kwargs']}
        source = {'message': self.polog.message, 'log.message': self.polog.log.message}.get(data['through'])
        model_kwargs = dict(kwargs)
        if source is None:
            source = getattr(self.polog.message, data['through'])
            if 'level' not in model_kwargs:
                model_kwargs = {'level': data['through'], **model_kwargs}
        edits, invalid = self.edits(data['positional'], model_kwargs)
        raised = None
        try:
            result = source(*data['positional'], **kwargs)
        except (ValueError, KeyError) as e:
            raised = e
        else:
            check(result is None, 'message() returns nothing')
        self.messages.add(frame['uid'] if frame is not None else None)
        if invalid:
            self.invalid += 1
        if invalid and not self.case['silent']:
            check(raised is not None, 'message() with an invalid argument must raise', data)
            return
        check(raised is None, 'message() must not raise', data, raised)
        if edits and frame is not None:
            frame['edits'] = edits

    # Calls.

    async def call(self, node, frame, unlogged, can_wait):
        """frame: the data of the decorated call which message() edits now, or None."""
        if node is None:
            return
        with self.lock:
            self.count += 1
            uid = Uid(1000 + self.count)
        is_async = node['kind'] == 'async'
        can_wait = can_wait and is_async
        decorated = node['how'] in ('log', 'class')
        inner = {'uid': uid, 'edits': None, 'node': node} if decorated else frame
        off = unlogged or (node['how'] == 'unlog' and self.case['full_unlog'])

        async def body():
            for step in node['steps']:
                await self.step(step, inner, off, can_wait)
            if node['fails'] is not None:
                raise values.build_exception(node['fails'])
        left = None
        seen = {}

        async def observed():
            try:
                return await body()
            except Exception as e:
                seen['e'] = e
                raise
        function = self.make(node, observed)
        try:
            result = function(uid)
            if is_async:
                await result
        except Exception as e:
            self.serious(e)
            left = e
        failure = seen.get('e')
        if decorated:
            self.model_record(node, inner, failure, unlogged)
        if left is not None:
            raise left

    def model_record(self, node, frame, failure, unlogged):
        with self.lock:
            if unlogged:
                return
            if failure is None:
                level = node['level'] if node['level'] is not None else 1
            elif node['errors'] is not None:
                level = node['errors']
            else:
                level = max(2, node['level'] or 0)
            if level < self.case['threshold']:
                return
            if failure is not None:
                if self.case['dedup'] and any(x is failure for x in self.recorded):
                    return
                self.recorded.append(failure)
            self.expected[frame['uid']] = (node, frame['edits'] or {}, level, failure)

    def make(self, node, body):
        if node['kind'] == 'async':
            async def function(uid):
                return await body()
        else:
            def function(uid):
                return kit.drive(body())
        if node['how'] == 'none':
            return function
        if node['how'] == 'unlog':
            return self.polog.unlog(function)
        kwargs = {}
        if node['text'] is not None:
            kwargs['message'] = node['text']
        if node['level'] is not None:
            kwargs['level'] = node['level']
        if node['errors'] is not None:
            kwargs['errors_level'] = node['errors']
        decorator = self.polog.log(**kwargs)
        if node['suppress']:
            decorator = decorator.suppress(KeyError)
        if node['how'] == 'log':
            return decorator(function)
        Owner = decorator(type('Owner', (), {'function': staticmethod(function)}))
        return Owner.function

    def serious(self, e):
        if type(e).__name__ in ('Violation', 'HarnessError', 'AssertionError'):
            raise e

    async def step(self, step, frame, unlogged, can_wait):
        kind = step[0]
        if kind == 'message':
            self.message(step[1], frame)
        elif kind == 'wait':
            if can_wait:
                await asyncio.sleep(0)
        elif kind == 'call':
            try:
                await self.call(step[1], frame, unlogged, can_wait)
            except Exception as e:
                self.serious(e)
                if not step[2]:
                    raise
        elif kind == 'tasks':
            if can_wait:
                # A task has its own copy of the context: what it passes to message() outside of decorated calls goes nowhere.
                for x in await asyncio.gather(*[self.call(x, None, unlogged, can_wait) for x in step[1]], return_exceptions=True):
                    if isinstance(x, BaseException):
                        self.serious(x)
        elif kind == 'thread':
            def target():
                try:
                    kit.drive(self.call(step[1], None, False, False))
                except Exception as e:
                    if type(e).__name__ in ('Violation', 'HarnessError', 'AssertionError'):
                        self.problems.append(e)
            thread = threading.Thread(target=target, daemon=True)
            thread.start()
            thread.join()
        else:
            if not unlogged:
                with self.lock:
                    self.others += 1
            if step[1] == 'manual':
                self.polog.log('other', other_log=True)
            elif step[1] == 'handle':
                self.polog.handle_log('other', success=True)
            else:
                with self.polog.log('other', other_log=True):
                    pass

    def run(self):
        mode = self.case['mode']

        def alone(node):
            try:
                kit.drive(self.call(node, None, False, False))
            except Exception as e:
                if type(e).__name__ in ('Violation', 'HarnessError', 'AssertionError'):
                    self.problems.append(e)
        if mode == 'sequence':
            for x in self.case['trees']:
                alone(x)
        elif mode == 'threads':
            threads = [threading.Thread(target=alone, args=(x,), daemon=True) for x in self.case['trees']]
            for x in threads:
                x.start()
            for x in threads:
                x.join()
        else:
            async def main():
                for x in await asyncio.gather(*[self.call(x, None, False, True) for x in self.case['trees']], return_exceptions=True):
                    if isinstance(x, BaseException):
                        self.serious(x)
            kit.run_async(main())
        if self.problems:
            raise self.problems[0]


SPECIAL = {'message', 'level', 'success', 'module', 'class', 'local_variables', 'exception_type', 'exception_message', 'result', 'extra', 'other',
           'registered', 'traceback', 'auto', 'function', 'time', 'time_of_work', 'input_variables'}


def verify(case, uid, record, node, edits, level, failure):
    what = f'record of call {int(uid)}'
    edits = dict(edits)
    exception = edits.pop('exception', None)
    extra = set(record) - SPECIAL
    check(not extra, f'{what}: fields out of nowhere', extra)
    expected = {'message': node['text'], 'level': level, 'success': failure is None, 'module': __name__}
    if failure is not None:
        expected['exception_type'] = type(failure).__name__
        expected['exception_message'] = refjson.text_of(failure) if refjson.text_of(failure) is not None else record.get('exception_message')
    if case['registered']:
        expected['registered'] = 'extracted'
    expected.update(edits)
    if isinstance(exception, str):
        expected['exception_type'] = exception
    elif exception is not None:
        expected['exception_type'] = type(exception).__name__
        expected['exception_message'] = refjson.text_of(exception)
        if expected['exception_message'] is None:
            expected['exception_message'] = record.get('exception_message')
    for name in ('message', 'class', 'level', 'success', 'module', 'exception_type', 'exception_message', 'extra', 'other', 'registered'):
        real = record.get(name)
        wanted = expected.get(name)
        check(real is wanted or (type(real) is type(wanted) and real == wanted) or (wanted != wanted and real != real), f'{what}: {name}', real, wanted, edits)
    if 'local_variables' in edits and exception is None:
        check_eq(record.get('local_variables'), edits['local_variables'], f'{what}: local variables')
    elif failure is None and exception is None:
        check('local_variables' not in record, f'{what}: local variables', record.get('local_variables'))
    if 'result' in edits:
        check_eq(record.get('result'), edits['result'], f'{what}: result')
    elif failure is None:
        refjson.check_one(record.get('result'), None, f'{what}: result')
    else:
        check('result' not in record, f'{what}: result')


def run(case):
    polog = fresh.load()
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    polog.config.levels(**NAMES)
    polog.config.set(silent_internal_exceptions=case['silent'], unknown_fields_in_handle_logs=case['unknown'], deduplicate_errors=case['dedup'],
                     full_unlog=case['full_unlog'], level=case['threshold'], default_level=1, default_error_level=2)
    if case['registered']:
        polog.config.add_fields(registered=polog.field(lambda log: 'extracted'))
    program = Program(case, polog, sink)
    program.run()
    seen = {}
    others = 0
    for item, record in sink.pairs:
        data = item.function_input_data
        if record.get('auto') is not True:
            others += 1
            allowed = {'message', 'other_log', 'auto', 'time', 'level', 'success', 'registered', 'time_of_work'}
            check(set(record) <= allowed and record['message'] == 'other' and record.get('registered', 'extracted') == 'extracted', 'another log was changed', record)
            continue
        uids = [x for x in data.args if type(x) is Uid]
        check(len(uids) == 1 and uids[0] not in seen, 'one record per call', record)
        seen[uids[0]] = record
    check_eq(others, program.others if case['threshold'] <= 1 else 0, 'other logs')
    check_eq(sorted(seen), sorted(program.expected), 'recorded calls')
    for uid, data in program.expected.items():
        verify(case, uid, seen[uid], *data)
    return Result(len(program.messages) > 1 or program.invalid, [case['mode'], 'silent' if case['silent'] else 'strict', 'invalid' if program.invalid else 'valid'])


FACETS = [Facet('trees', strategy, run, quick=7000)]
