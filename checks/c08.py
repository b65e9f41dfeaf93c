"""C08: "with log" blocks."""
import asyncio
import threading

from hypothesis import strategies as st

from vlib import clock, fresh, kit, refjson, values
from vlib.core import Facet, Result, check, check_eq

ID = 'C08'
TECHNIQUE = 'property-based testing: generated trees of with blocks (threads and interleaved tasks) against a reference model of each block'
RULE = ('A case is a set of trees of "with log" blocks in all spellings (bare, with arguments, level after a dot, .suppress() of every form), with '
        'edits of the own and outer records, durations, switches between tasks, child tasks that may outlive the block, manual logs and decorated '
        'calls in between, ends by return, break or exception, run in sequence, in threads or as tasks. Each block must give one record at its '
        'exit, equal to the one of the model, and let the exception through or not as the model says. Non-trivial: at least two blocks, or an edit, or an exception.')
ASSUMPTIONS = ['the time module and datetime are replaced by clocks moved by hand (one per thread)',
               'exceptions that are not Exceptions (KeyboardInterrupt and others) inside of blocks are not generated']

NAMES = {'alpha': 3, 'beta': 8}
EXCEPTIONS = sorted(values.EXCEPTIONS)
FORMS = ['bare', 'call', 'empty_call', 'dot', 'dot_call', 'suppress_bare', 'suppress_call', 'suppress_dot', 'suppress_dot_call']
SYNONYMS = {'class_': 'class', 'vars': 'local_variables', 'locals': 'local_variables'}
short_text = kit.weighted((8, st.sampled_from(['a', 'b', 'some text', ''])), (1, st.sampled_from(values.LONG)))
PAIRS = [
    st.tuples(st.just('message'), short_text),
    st.tuples(st.just('level'), st.one_of(st.integers(0, 9), st.sampled_from(sorted(NAMES)))),
    st.tuples(st.sampled_from(['class_', 'class']), short_text),
    st.tuples(st.sampled_from(['vars', 'locals', 'local_variables']), short_text),
    st.tuples(st.just('success'), st.booleans()),
    st.tuples(st.sampled_from(['extra', 'other']), st.one_of(st.none(), st.integers(0, 5), short_text)),
    st.tuples(st.sampled_from(['module', 'function', 'time_of_work', 'exception_message', 'exception_type', 'traceback']), short_text),
]


def different(pairs):
    """One field is given under one name only in one call."""
    result = {}
    seen = set()
    for key, value in pairs:
        full = SYNONYMS.get(key, key)
        if full not in seen:
            seen.add(full)
            result[key] = value
    return result


arguments = st.tuples(st.sampled_from([None, None, 'text', 'positional']), st.lists(st.integers(0, len(PAIRS) - 1).flatmap(lambda x: PAIRS[x]), max_size=9).map(different)).map(list)


def nodes(children, limit=4):
    step = kit.weighted(
        (2, st.sampled_from([0.0, 0.5, 2.25]).map(lambda x: ['time', x])),
        (2, st.just(['yield'])),
        (3, st.tuples(st.just('edit'), st.integers(0, 2), arguments).map(list)),
        (3, children.map(lambda x: ['child', x])),
        (1, st.lists(children, min_size=2, max_size=3).map(lambda x: ['tasks', x])),
        (1, children.map(lambda x: ['detached', x])),
        (1, st.sampled_from(['manual', 'decorated', 'decorated_error', 'refused']).map(lambda x: ['other', x])),
    )
    return st.fixed_dictionaries({
        'form': st.sampled_from(FORMS),
        'dot': st.sampled_from(sorted(NAMES)),
        'args': arguments,
        'suppress': st.lists(st.lists(st.sampled_from(sorted(values.CLASSES)), max_size=2), min_size=1, max_size=2),
        'suppress_inside': st.one_of(st.none(), st.none(), st.none(), st.lists(st.sampled_from(sorted(values.CLASSES)), max_size=1)),
        'steps': st.lists(step, max_size=limit),
        'end': st.one_of(st.sampled_from(['ok', 'ok', 'return', 'break']).map(lambda x: [x]), st.sampled_from(EXCEPTIONS).map(lambda x: ['raise', x])),
        'catch': st.booleans(),
        'pause': st.sampled_from([0.0, 0.0, 0.75]),
    })


leaf = nodes(st.just(None))
tree = st.recursive(leaf, nodes, max_leaves=6)


def pile(floors):
    """Blocks inside of blocks inside of blocks."""
    node = None
    for floor in floors:
        node = floor if node is None else {**floor, 'steps': [*floor['steps'][:1], ['child', node], *floor['steps'][1:]]}
    return [node]


tower = st.lists(nodes(st.just(None), 2), min_size=5, max_size=12).map(pile)


def strategy():
    return st.fixed_dictionaries({
        'trees': kit.weighted((12, st.lists(tree, min_size=1, max_size=3)), (1, tower)),
        'mode': st.sampled_from(['sequence', 'threads', 'tasks', 'tasks']),
        'suppress_by_default': st.booleans(),
        'subclasses': st.booleans(),
        'service': st.sampled_from([None, 'service']),
        'toggle': st.booleans(),
    })


class Program:
    def __init__(self, case, polog, hands, sink):
        self.case = case
        self.polog = polog
        self.hands = hands
        self.sink = sink
        self.lock = threading.Lock()
        self.expected = {}
        self.blocks = 0
        self.edits = 0
        self.raised = 0
        self.others = 0

        @polog.log(message='of a decorated function')
        def decorated(fails):
            if fails:
                raise ValueError('of a decorated function')
        self.decorated = decorated

    def make(self, node, first):
        log = self.polog.log
        form = node['form']
        positional, kwargs = first
        args = () if positional is None else (positional,)
        source = getattr(log, node['dot']) if 'dot' in form else log
        if form in ('bare', 'dot'):
            return source
        if form == 'empty_call':
            return source()
        if form in ('call', 'dot_call'):
            return source(*args, **kwargs)
        if form.endswith('call'):
            source = source(*args, **kwargs)
        for classes in node['suppress'] if form.endswith('call') else node['suppress'][:1]:
            source = source.suppress(*[values.CLASSES[x] for x in classes])
        return source

    def is_suppressed(self, node, exception):
        groups = []
        if node['form'].startswith('suppress'):
            groups = list(node['suppress'] if node['form'].endswith('call') else node['suppress'][:1])
        if node['suppress_inside'] is not None:
            groups.append(node['suppress_inside'])
        if any(not x for x in groups):
            return True
        classes = [values.CLASSES[y] for x in groups for y in x]
        if classes:
            if self.case['subclasses']:
                return isinstance(exception, tuple(classes))
            return type(exception) in classes
        return self.case['suppress_by_default']

    def apply(self, fields, call):
        positional, kwargs = call
        for key, value in kwargs.items():
            fields[SYNONYMS.get(key, key)] = value
        if positional is not None:
            fields['message'] = positional

    async def block(self, node, outer, can_wait):
        """Plays a block. Raises what must leave it."""
        with self.lock:
            number = self.blocks
            self.blocks += 1
        positional, kwargs = node['args']
        if positional == 'positional':
            positional = values.SelfStr(positional)
        if positional is not None:
            kwargs = {k: v for k, v in kwargs.items() if k != 'message'}
        first = (positional, {**kwargs, 'block': number})
        fields = {}
        with_arguments = node['form'] in ('call', 'dot_call', 'suppress_call', 'suppress_dot_call')
        if 'dot' in node['form']:
            fields['level'] = node['dot']
        if with_arguments:
            self.apply(fields, first)
        raised = None
        left = None
        normal = []
        trace_line = None
        state = {'fields': fields, 'handle': None}
        for once in range(1):
            try:
                manager = self.make(node, first)
                self.hands.advance(node['pause'])
                start = self.hands.now()
                with manager as handle:
                    del manager
                    state['handle'] = handle
                    if not with_arguments:
                        handle(*([] if positional is None else [positional]), **first[1])
                        self.apply(fields, first)
                    if node['suppress_inside'] is not None:
                        handle.suppress(*[values.CLASSES[x] for x in node['suppress_inside']])
                    try:
                        await self.steps(node, [state] + outer, can_wait)
                        check(not self.written(number), 'a record of a block before its end', number)
                        if node['end'][0] == 'raise':
                            exception = values.build_exception(node['end'][1])
                            raise exception  # the raising line
                    except Exception as e:
                        raised = e
                        finish = self.hands.now()
                        self.raised += 1
                        raise
                    finish = self.hands.now()
                    if node['end'][0] == 'break':
                        break
                    if node['end'][0] == 'return':
                        normal.append('return')
                # here: a normal end or a suppressed exception
            except Exception as e:
                left = e
        state['handle'] = None
        expected = {'fields': fields, 'raised': raised, 'start': start, 'duration': finish - start, 'node': node}
        with self.lock:
            self.expected[number] = expected
        check(self.written(number) == 1, 'one record of a block right after its end', number, self.written(number), node['form'])
        if raised is None:
            check(left is None, 'an exception out of nowhere', left)
        else:
            suppressed = self.is_suppressed(node, raised)
            if suppressed:
                check(left is None, 'the exception had to be suppressed', node['form'], node['suppress'], left)
            else:
                check(left is raised, 'the exception had to leave the block', node['form'], node['suppress'], raised, left)
        if left is not None and not node['catch']:
            raise left

    def written(self, number):
        return sum(1 for x in list(self.sink.records) if x.get('block') == number)

    async def steps(self, node, stack, can_wait):
        for step in node['steps']:
            kind = step[0]
            if kind == 'time':
                self.hands.advance(step[1])
            elif kind == 'yield':
                if can_wait:
                    await asyncio.sleep(0)
            elif kind == 'edit':
                target = stack[min(step[1], len(stack) - 1)]
                if target['handle'] is None:
                    continue
                positional, kwargs = step[2]
                if positional == 'positional':
                    positional = values.SelfStr(positional)
                if positional is not None:
                    kwargs = {k: v for k, v in kwargs.items() if k != 'message'}
                target['handle'](*([] if positional is None else [positional]), **kwargs)
                self.apply(target['fields'], (positional, kwargs))
                self.edits += 1
            elif kind == 'child':
                if step[1] is not None:
                    await self.block(step[1], stack, can_wait)
            elif kind == 'tasks':
                children = [x for x in step[1] if x is not None]
                if can_wait:
                    results = await asyncio.gather(*[self.block(x, stack, can_wait) for x in children], return_exceptions=True)
                    self.reraise(results)
                else:
                    for x in children:
                        await self.block(x, stack, can_wait)
            elif kind == 'detached':
                if step[1] is not None:
                    if can_wait:
                        self.detached.append(asyncio.ensure_future(self.block(step[1], stack, can_wait)))
                    else:
                        await self.block(step[1], stack, can_wait)
            elif kind == 'other' and step[1] == 'refused':
                # a block that could not be entered (only subclasses of Exception can be suppressed)
                try:
                    with self.polog.log.suppress(KeyboardInterrupt):
                        check(False, 'a refused block was entered')
                except ValueError:
                    pass
            elif kind == 'other':
                with self.lock:
                    self.others += 1
                if step[1] == 'manual':
                    self.polog.log('of a manual log')
                else:
                    try:
                        self.decorated(step[1] == 'decorated_error')
                    except ValueError:
                        pass

    def reraise(self, results):
        for x in results:
            if isinstance(x, BaseException) and type(x).__name__ in ('Violation', 'HarnessError', 'CancelledError'):
                raise x

    def run(self):
        mode = self.case['mode']
        problems = []

        def alone(node):
            coroutine = self.block(node, [], False)
            try:
                coroutine.send(None)
            except StopIteration:
                pass
            except Exception as e:
                if type(e).__name__ in ('Violation', 'HarnessError'):
                    problems.append(e)

        if mode == 'tasks':
            async def main():
                self.detached = []
                results = await asyncio.gather(*[self.block(x, [], True) for x in self.case['trees']], return_exceptions=True)
                self.reraise(results)
                while self.detached:
                    waiting, self.detached = self.detached, []
                    self.reraise(await asyncio.gather(*waiting, return_exceptions=True))
            kit.run_async(main())
        elif mode == 'sequence':
            for x in self.case['trees']:
                alone(x)
        else:
            threads = [threading.Thread(target=alone, args=(x,), daemon=True) for x in self.case['trees']]
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join()
        if problems:
            raise problems[0]


def verify(case, number, expected, record):
    what = f'block {number} ({expected["node"]["form"]})'
    record = dict(record)
    fields = {k: v for k, v in expected['fields'].items() if v is not None}
    fields.pop('success', None)
    for name in ('time_of_work',):
        fields.pop(name, None)
    raised = expected['raised']
    check(record.pop('auto', None) is False, f'{what}: auto')
    check_eq(record.pop('time', None), clock.real_datetime.datetime.fromtimestamp(expected['start']), f'{what}: time')
    check(abs(record.pop('time_of_work', -1) - expected['duration']) < 1e-6, f'{what}: duration', expected['duration'])
    check_eq(record.pop('service_name', None), case['service'], f'{what}: service name')
    check(record.pop('success', None) is (raised is None), f'{what}: success')
    level = fields.pop('level', None)
    if level is None:
        level = 1 if raised is None else 2
    elif isinstance(level, str):
        level = NAMES[level]
    check_eq(record.pop('level', None), level, f'{what}: level')
    if raised is not None:
        for name in ('exception_type', 'exception_message', 'traceback'):
            fields.pop(name, None)
        check_eq(record.pop('exception_type', None), type(raised).__name__, f'{what}: exception type')
        message = record.pop('exception_message', None)
        text = refjson.text_of(raised)
        check(type(message) is str and (text is None or message == text), f'{what}: exception message', message, text)
        trace = refjson.parse(record.pop('traceback', None), f'{what}: traceback')
        check(isinstance(trace, list) and trace and '# the raising line' in trace[-1], f'{what}: the raising line in the traceback', trace)
    check_eq(record, fields, f'{what}: fields')


def run(case):
    hands = clock.Clock()
    polog = fresh.load(substitutes=hands.modules())
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    polog.config.levels(**NAMES)
    polog.config.set(suppress_by_default=case['suppress_by_default'] != case['toggle'], suppress_exception_subclasses=case['subclasses'],
                     service_name=case['service'])
    program = Program(case, polog, hands, sink)
    polog.config.set(suppress_by_default=case['suppress_by_default'])
    program.run()
    records = {}
    others = 0
    for record in sink.records:
        if 'block' not in record:
            others += 1
            check(record.get('message') in ('of a manual log', 'of a decorated function'), 'a record out of nowhere', record)
            check('extra' not in record and 'other' not in record, 'a field of a block in another record', record)
            continue
        check(record['block'] not in records, 'two records of one block', record)
        records[record['block']] = record
    check_eq(others, program.others, 'records of other loggers')
    check_eq(sorted(records), list(range(program.blocks)), 'every block has a record')
    for number, expected in program.expected.items():
        verify(case, number, expected, records[number])
    return Result(program.blocks > 1 or program.edits or program.raised,
                  [case['mode'], f'{min(program.blocks, 6)} blocks', 'raises' if program.raised else 'no exceptions'] + sorted({x['node']['form'] for x in program.expected.values()}))


FACETS = [Facet('blocks', strategy, run, quick=7000)]
