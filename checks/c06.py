"""C06: every record of a decorated call describes that very call."""
import functools
import asyncio
import json
import threading
import types

from hypothesis import strategies as st

from vlib import clock, fresh, kit, refjson, values
from vlib.core import Facet, HarnessError, Result, check, check_eq

ID = 'C06'
TECHNIQUE = 'property-based testing: generated call trees of decorated functions (threads and tasks interleaved) against what each call really did'
RULE = ('A case is a set of decorated functions (plain, closures, methods, class and static methods, coroutines; with messages) and call trees '
        'over them with arguments, durations (a clock moved by hand), switches between tasks, returned values and exceptions (caught or '
        'propagating), run one after another, in threads or as concurrent tasks. Every record is compared with what the call it came from '
        'got and did; names of functions and classes may be the same in several modules, the service name may change between calls. Non-trivial: calls are nested or concurrent, or fail. Facet "bare": calls with and without arguments, messages, service names; no field stands for what was not there. Non-trivial: a call without arguments.')
ASSUMPTIONS = ['the time module and datetime are replaced by clocks moved by hand (one per thread)']

KINDS = ['function', 'function', 'closure', 'method', 'classmethod', 'staticmethod', 'class_method', 'class_static', 'async', 'async', 'async_method',
         'nested_class', 'local_class', 'bound', 'async_bound', 'bound_classmethod', 'async_static', 'async_class_method', 'inherited']
ASYNC = {'async', 'async_method', 'async_bound', 'async_static', 'async_class_method'}
EXCEPTIONS = ['ValueError', 'KeyError', 'ChildError', 'StrFailsError', 'FrozenError', 'OSError', 'ArgsError', 'ZeroDivisionError', 'ValueErrorEmpty', 'BoolError', 'LongError', 'CausedError', 'ContextError', 'BothError']


class Uid(int):
    """Marks the arguments of one call."""


class Slow:
    """Time passes while it is written to a log."""
    def __init__(self, hands):
        self.hands = hands

    def __str__(self):
        self.hands.advance(7.5)
        return 'slow'

    __repr__ = __str__


def node(children):
    return st.fixed_dictionaries({
        'f': st.integers(0, 5),
        'slow': kit.weighted((3, st.just(False)), (1, st.just(True))),
        'args': kit.weighted((12, st.lists(values.value_specs(), max_size=2)), (1, values.many_specs())),
        'kwargs': st.dictionaries(st.sampled_from(['a', 'b', 'message', 'func', 'result', 'self_']), values.value_specs(), max_size=2),
        'steps': st.lists(st.one_of(
            st.tuples(st.just('time'), st.sampled_from([0.0, 0.5, 1.25, 3.0, 0.001234, 0.0001, 4000.5])).map(list),
            st.just(['yield']),
            st.tuples(st.just('call'), children, st.booleans()).map(list),
        ), max_size=3),
        'end': st.one_of(
            values.value_specs().map(lambda x: ['return', x]),
            st.sampled_from(EXCEPTIONS).map(lambda x: ['raise', x]),
        ),
    })


tree = st.recursive(node(st.nothing()), node, max_leaves=5)


def strategy():
    return st.fixed_dictionaries({
        'functions': st.lists(st.tuples(st.sampled_from(KINDS), st.sampled_from([None, None, 'some text', '', 'ünïcode', values.LONG[1], values.LONG[3]])).map(list), min_size=1, max_size=4),
        'trees': st.lists(tree, min_size=1, max_size=3),
        'mode': st.sampled_from(['sequence', 'threads', 'tasks', 'tasks']),
        'service': st.lists(st.sampled_from([None, 'some_service', 'other_service']), min_size=3, max_size=3),
        'same': st.sampled_from(['nothing', 'nothing', 'name', 'class', 'name and class']),
        'dedup': st.booleans(),
        'pool': st.sampled_from([0, 0, 0, 2]),
    })


SOURCE = {
    'function': '''
@decorate
def {name}(uid, *args, **kwargs):
    marker = 'marker of %d' % uid
    return body(uid)
''',
    'closure': '''
def make():
    @decorate
    def {name}(uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return body(uid)
    return {name}
{name} = make()
''',
    'async': '''
@decorate
async def {name}(uid, *args, **kwargs):
    marker = 'marker of %d' % uid
    return await async_body(uid)
''',
    'method': '''
class {owner}:
    @decorate
    def {name}(self, uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return body(uid)
owner = {owner}()
{name} = owner.{name}
''',
    'async_method': '''
class {owner}:
    @decorate
    async def {name}(self, uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return await async_body(uid)
owner = {owner}()
{name} = owner.{name}
''',
    'classmethod': '''
class {owner}:
    @classmethod
    @decorate
    def {name}(cls, uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return body(uid)
owner = {owner}
{name} = {owner}.{name}
''',
    'staticmethod': '''
class {owner}:
    @staticmethod
    @decorate
    def {name}(uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return body(uid)
{name} = {owner}.{name}
''',
    'class_method': '''
@decorate
class {owner}:
    def {name}(self, uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return body(uid)
owner = {owner}()
{name} = owner.{name}
''',
    'class_static': '''
@decorate
class {owner}:
    @staticmethod
    def {name}(uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return body(uid)
{name} = {owner}.{name}
''',
    'nested_class': '''
class Outer:
    class {owner}:
        @decorate
        def {name}(self, uid, *args, **kwargs):
            marker = 'marker of %d' % uid
            return body(uid)
owner = Outer.{owner}()
{name} = owner.{name}
''',
    'local_class': '''
def make():
    class Outer:
        class {owner}:
            @staticmethod
            @decorate
            def {name}(uid, *args, **kwargs):
                marker = 'marker of %d' % uid
                return body(uid)
    return Outer.{owner}
{name} = make().{name}
''',
    'bound': '''
class {owner}:
    def {name}(self, uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return body(uid)
{name} = decorate({owner}().{name})
''',
    'async_bound': '''
class {owner}:
    async def {name}(self, uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return await async_body(uid)
{name} = decorate({owner}().{name})
''',
    'bound_classmethod': '''
class {owner}:
    @classmethod
    def {name}(cls, uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return body(uid)
{name} = decorate({owner}.{name})
''',
    'async_static': '''
class {owner}:
    @staticmethod
    @decorate
    async def {name}(uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return await async_body(uid)
{name} = {owner}.{name}
''',
    'async_class_method': '''
@decorate
class {owner}:
    async def {name}(self, uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return await async_body(uid)
owner = {owner}()
{name} = owner.{name}
''',
    'inherited': '''
class {owner}:
    @decorate
    def {name}(self, uid, *args, **kwargs):
        marker = 'marker of %d' % uid
        return body(uid)
class Child({owner}):
    pass
owner = Child()
{name} = owner.{name}
''',
}
RAISING = '''


def raise_it(exception):
    raise exception
'''
WITHOUT_CLASS = {'function', 'closure', 'async'}


class Call:
    """What really happened during one call."""
    def __init__(self, case, node, function):
        self.node = node
        self.function = function
        self.uid = None
        self.args = [values.build(x) for x in node['args']]
        self.kwargs = {k: values.build(v) for k, v in node['kwargs'].items()}
        self.start = self.finish = None
        self.result = None
        self.exception = None
        self.already_recorded = False


class Program:
    def __init__(self, case, polog, hands):
        self.case = case
        self.polog = polog
        self.hands = hands
        self.calls = {}
        self.recorded = []
        self.lock = threading.Lock()
        self.service = case['service'][0]
        self.functions = []
        for index, (kind, message) in enumerate(case['functions']):
            self.functions.append(self.make(index, kind, message))

    def make(self, index, kind, message):
        module = types.ModuleType(f'generated_module_{index}')
        name = 'generated' if 'name' in self.case['same'] else f'generated_{index}'
        owner = 'Owner' if 'class' in self.case['same'] else f'Owner{index}'
        log = self.polog.log
        # A log(...) object that decorates nothing is a manual log, so exactly one is made.
        if message is None:
            module.decorate = log
        elif index % 2:
            module.decorate = log(message=message)
        else:
            module.decorate = log(message)
        module.body = self.body
        module.async_body = self.async_body
        exec(compile(SOURCE[kind].format(name=name, owner=owner), f'generated_file_{index}.py', 'exec'), module.__dict__)
        exec(compile(RAISING, 'raising_file.py', 'exec'), module.__dict__)
        self.raise_it = module.raise_it
        return {
            'kind': kind, 'name': name, 'message': message, 'module': module.__name__, 'callable': getattr(module, name),
            'class': f'{owner}' if kind not in WITHOUT_CLASS else None, 'owner': getattr(module, 'owner', None), 'keep': module,
        }

    def choose(self, node, can_be_async):
        options = [x for x in self.functions if can_be_async or x['kind'] not in ASYNC]
        return options[node['f'] % len(options)] if options else None

    def prepare(self, node, can_be_async):
        function = self.choose(node, can_be_async)
        if function is None:
            return None
        call = Call(self.case, node, function)
        call.service = self.service
        if node['slow']:
            call.args = call.args + [Slow(self.hands)]
        with self.lock:
            call.uid = Uid(1000 + len(self.calls))
            self.calls[call.uid] = call
        return call

    def call_sync(self, node):
        call = self.prepare(node, False)
        if call is not None:
            call.function['callable'](call.uid, *call.args, **call.kwargs)

    async def call_async(self, node):
        call = self.prepare(node, True)
        result = call.function['callable'](call.uid, *call.args, **call.kwargs)
        if call.function['kind'] in ASYNC:
            await result

    def finish(self, call):
        kind, payload = call.node['end']
        call.finish = self.hands.now()
        if kind == 'return':
            call.result = values.build(payload)
            return call.result
        call.exception = values.build_exception(payload)
        self.raise_it(call.exception)

    def left(self, call, exception):
        """An exception of a callee propagates through this call."""
        call.exception = exception
        call.finish = self.hands.now()

    def body(self, uid):
        call = self.calls[uid]
        call.start = self.hands.now()
        for step in call.node['steps']:
            if step[0] == 'time':
                self.hands.advance(step[1])
            elif step[0] == 'yield':
                if self.case['mode'] == 'threads':
                    threading.Event().wait(0.0001)
            else:
                try:
                    self.call_sync(step[1])
                except Exception as e:
                    if step[2]:
                        continue
                    self.left(call, e)
                    raise
        return self.finish(call)

    async def async_body(self, uid):
        call = self.calls[uid]
        call.start = self.hands.now()
        for step in call.node['steps']:
            if step[0] == 'time':
                self.hands.advance(step[1])
            elif step[0] == 'yield':
                await asyncio.sleep(0)
            else:
                try:
                    await self.call_async(step[1])
                except Exception as e:
                    if step[2]:
                        continue
                    self.left(call, e)
                    raise
        return self.finish(call)

    def run(self):
        mode = self.case['mode']
        trees = self.case['trees']
        if mode == 'tasks':
            async def main():
                await asyncio.gather(*[self.call_async(x) for x in trees], return_exceptions=True)
            kit.run_async(main())
            return
        def one(node):
            try:
                self.call_sync(node)
            except Exception:
                pass
        if mode == 'sequence':
            for index, x in enumerate(trees):
                self.service = self.case['service'][index]
                self.polog.config.set(service_name=self.service)
                one(x)
        else:
            threads = [threading.Thread(target=one, args=(x,), daemon=True) for x in trees]
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join()


def run(case):
    hands = clock.Clock()
    polog = fresh.load(substitutes=hands.modules())
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    polog.config.set(time_quant=0.0005, service_name=case['service'][0], deduplicate_errors=case['dedup'], pool_size=case['pool'])
    program = Program(case, polog, hands)
    program.run()
    kit.drain(polog)
    by_uid = {}
    for item, record in sink.pairs:
        data = item.function_input_data
        uids = [x for x in data.args if type(x) is Uid]
        check(len(uids) == 1, 'the arguments of the record are those of one call', data.args)
        check(uids[0] not in by_uid, 'one record per call', uids[0])
        by_uid[uids[0]] = (data, record)
    innermost = set()
    seen = []
    for uid in sorted(program.calls, reverse=True):
        call = program.calls[uid]
        # Calls are numbered in the order they start, so the innermost frame of a propagating exception has the greatest number.
        if call.exception is not None:
            if not any(x is call.exception for x in seen):
                seen.append(call.exception)
                innermost.add(uid)
    for uid, call in program.calls.items():
        expected = call.exception is None or not case['dedup'] or uid in innermost
        check((uid in by_uid) == expected, 'a record of a call', uid, by_uid.get(uid), call.node)
        if expected:
            verify(case, call, *by_uid[uid])
    failed = [x for x in program.calls.values() if x.exception is not None]
    return Result(len(program.calls) > 1 or failed, [case['mode'], 'fails' if failed else 'returns', f'{min(len(program.calls), 6)} calls'] + sorted({x.function['kind'] for x in program.calls.values()}))


def verify(case, call, data, record):
    function = call.function
    where = f'record of {function["kind"]}'
    allowed = {'auto', 'module', 'function', 'class', 'message', 'time', 'success', 'result', 'time_of_work', 'level', 'service_name',
               'input_variables', 'exception_type', 'exception_message', 'traceback', 'local_variables'}
    check(set(record) <= allowed, f'{where}: unexpected fields', set(record) - allowed)
    check(record.get('auto') is True, f'{where}: it is automatic', record.get('auto'))
    check_eq(record.get('function'), function['name'], f'{where}: function')
    check_eq(record.get('module'), function['module'], f'{where}: module')
    check_eq(record.get('class'), function['class'], f'{where}: class')
    check_eq(record.get('message'), function['message'], f'{where}: message')
    check_eq(record.get('service_name'), call.service, f'{where}: service name')
    check_eq(record.get('time'), clock.real_datetime.datetime.fromtimestamp(call.start), f'{where}: start time')
    check(abs(record.get('time_of_work', -1) - (call.finish - call.start)) < 1e-6, f'{where}: duration', record.get('time_of_work'), call.finish - call.start)
    # The very objects the function got.
    args = data.args
    tail = [call.uid] + call.args
    check(type(args) is tuple and len(args) - len(tail) in (0, 1), f'{where}: number of arguments', args)
    for real, expected in zip(args[len(args) - len(tail):], tail):
        check(real is expected or (expected != expected), f'{where}: an argument object', real, expected) if type(expected) is not values.BadEq else check(real is expected, f'{where}: an argument object')
    if len(args) > len(tail):
        check(function['owner'] is not None and args[0] is function['owner'], f'{where}: the first argument', args[0])
    check(list(data.kwargs) == list(call.kwargs) and all(data.kwargs[k] is call.kwargs[k] for k in call.kwargs), f'{where}: named arguments', data.kwargs)
    refjson.check_vars(record.get('input_variables'), args, data.kwargs, f'{where}: input variables')
    if call.exception is None:
        check(record.get('success') is True, f'{where}: success', record.get('success'))
        refjson.check_one(record.get('result'), call.result, f'{where}: result')
        for name in ('exception_type', 'exception_message', 'traceback', 'local_variables'):
            check(name not in record, f'{where}: {name} without an exception', record.get(name))
    else:
        check(record.get('success') is False, f'{where}: success', record.get('success'))
        check('result' not in record, f'{where}: a result of a failed call')
        check_eq(record.get('exception_type'), type(call.exception).__name__, f'{where}: exception type')
        text = refjson.text_of(call.exception)
        check(type(record.get('exception_message')) is str and (text is None or record['exception_message'] == text), f'{where}: exception text', record.get('exception_message'), text)
        trace = refjson.parse(record.get('traceback'), f'{where}: traceback')
        check(isinstance(trace, list) and all(isinstance(x, str) for x in trace), f'{where}: traceback', trace)
        check(any(f'in {function["name"]}' in x for x in trace), f'{where}: the frame of the function in the traceback', trace)
        check('raising_file.py", line 5, in raise_it' in trace[-1], f'{where}: the raising line in the traceback', trace[-1])
        local = refjson.parse(record.get('local_variables'), f'{where}: local variables')
        check_eq(local.get('kwargs', {}).get('marker', {}).get('value'), 'marker of %d' % call.uid, f'{where}: local variables')


# Calls without arguments: nothing in the record stands for what was not there.

def bare_strategy():
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['function', 'async', 'lambda', 'static', 'partial', 'object']),
        'service': st.sampled_from([None, 'service']),
        'message': st.sampled_from([None, '', 'text']),
        'calls': st.lists(st.tuples(st.booleans(), st.booleans()).map(list), min_size=1, max_size=4),
    })


def run_bare(case):
    polog = fresh.load()
    sink = kit.Sink()
    polog.config.add_handlers(sink)
    polog.config.set(pool_size=0, service_name=case['service'])
    decorator = polog.log(**({} if case['message'] is None else {'message': case['message']}))
    state = {}

    def body(*given):
        if state['fails']:
            raise ValueError
        return None

    async def coroutine(*given):
        return body()

    class Owner:
        @staticmethod
        def method(*given):
            return body()

    class Callable:
        def __call__(self, *given):
            return body()
    if case['kind'] == 'static':
        decorator(Owner)
        decorated = Owner.method
    else:
        decorated = decorator({'function': body, 'async': coroutine, 'lambda': lambda *given: body(), 'partial': functools.partial(body), 'object': Callable()}[case['kind']])
    for fails, given in case['calls']:
        state['fails'] = fails
        arguments = (5,) if given else ()
        try:
            kit.drive(decorated(*arguments)) if case['kind'] == 'async' else decorated(*arguments)
        except ValueError:
            check(fails, 'an exception out of nowhere')
        records = sink.take()
        check_eq(len(records), 1, 'records of one call')
        record = records[0]
        where = f'call of {case["kind"]}'
        for name in record:
            check(record[name] is not None, f'{where}: the field {name} is None')
        check_eq('input_variables' in record, given, f'{where}: is there a text of arguments')
        check_eq('message' in record, case['message'] is not None, f'{where}: is there a message')
        check_eq('service_name' in record, case['service'] is not None, f'{where}: is there a service name')
        check_eq('result' in record, not fails, f'{where}: is there a result')
        for name in ('exception_type', 'exception_message', 'traceback'):
            check_eq(name in record, fails, f'{where}: is there {name}')
        check_eq(record['success'], not fails, f'{where}: success')
    return Result(any(not x[1] for x in case['calls']), [case['kind']])


FACETS = [Facet('trees', strategy, run, quick=9000), Facet('bare', bare_strategy, run_bare, quick=800)]
